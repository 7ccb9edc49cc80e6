------------------------------- MODULE NormMC -------------------------------
(***************************************************************************)
(* The streaming algorithm, with exact fractions, over every split of every   *)
(* small data set into batches, including empty ones and a limit; with the      *)
(* inverse deviation cached between experiences.  Mut: broken variants.          *)
(***************************************************************************)
EXTENDS Norm, TLC, Json
CONSTANTS MaxB, Vals, Until, Gen, Mut
VARIABLES s, bad, im, b, hist, over
vars == <<s, bad, im, b, hist, over>>
C == [d |-> 1, until |-> Until, eps |-> 256, clip |-> 0]
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
F(p, q) == LET g == Gcd(Abs(p), q) IN IF g = 0 THEN <<0, 1>> ELSE <<p \div g, q \div g>>
Add(x, y) == F(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
Neg(x) == <<0 - x[1], x[2]>>
Tms(x, y) == F(x[1] * y[1], x[2] * y[2])
Fx(x, u) == (x[1] * u) \div x[2]
BMean(xs) == F(SumSeq(xs), Len(xs))
BVar(xs) == LET k == Len(xs) IN F(k * SumSeq([i \in 1..k |-> xs[i] * xs[i]]) - SumSeq(xs) * SumSeq(xs),
                                  IF Mut = "unbiased" /\ k > 1 THEN k * (k - 1) ELSE k * k)
Learn(i, xs) ==
    IF xs = <<>> \/ (Until > 0 /\ (IF Mut = "limit" THEN i.n + Len(xs) > Until ELSE i.n >= Until)) THEN i
    ELSE LET n == i.n + Len(xs)
             rate == F(Len(xs), n)
             dm == Add(BMean(xs), Neg(i.mean))
             m1 == Add(i.mean, Tms(rate, dm))
             dm2 == Add(BMean(xs), Neg(IF Mut = "order" THEN i.mean ELSE m1))
             v1 == Add(i.var, Tms(rate, Add(Add(BVar(xs), Neg(i.var)), Tms(dm, dm2))))
         IN [n |-> n, mean |-> m1, var |-> v1, inv |-> IF Mut = "stale" THEN i.inv ELSE 0]
SdOf(v) == ISqrt((Fx(v, 4096) + C.eps) * 4096)
Batches == UNION { [1..k -> Vals] : k \in 0..2 }
Feed(x, ev) == IF x[1] # "" THEN x ELSE <<Clause(C, x[2], ev), Step(C, x[2], ev)>>
Init == /\ s = InitState(C) /\ bad = "" /\ im = [n |-> 0, mean |-> <<0, 1>>, var |-> <<1, 1>>, inv |-> 0]
        /\ b = 0 /\ hist = <<>> /\ over = FALSE
Turn == /\ bad = "" /\ b < MaxB
        /\ \E xs \in Batches, upd \in BOOLEAN :
            LET i1 == IF upd THEN Learn(im, xs) ELSE im
                sd == IF i1.inv = 0 THEN SdOf(i1.var) ELSE i1.inv
                y == [i \in 1..Len(xs) |-> <<((xs[i] * S - Fx(i1.mean, S)) * 256) \div sd>>]
                bk == [i \in 1..Len(xs) |-> <<xs[i] * 1024>>]
                x1 == Feed(<<"", s>>, [op |-> "forward", xs |-> [i \in 1..Len(xs) |-> <<xs[i]>>], upd |-> upd, y |-> y, back |-> bk])
                x2 == Feed(x1, [op |-> "stats", n |-> i1.n, mean |-> <<Fx(i1.mean, S)>>, std |-> <<ISqrt(Fx(i1.var, 4096) * 256)>>])
            IN /\ bad' = x2[1] /\ s' = x2[2] /\ im' = [i1 EXCEPT !.inv = sd]
               /\ hist' = Append(hist, [xs |-> xs, upd |-> upd])
        /\ b' = b + 1 /\ UNCHANGED over
Done == /\ b = MaxB /\ bad = "" /\ ~over /\ over' = TRUE /\ (Gen => PrintT("@@" \o ToJson(hist)))
        /\ UNCHANGED <<s, bad, im, b, hist>>
Next == Turn \/ Done
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
\* a variance is never negative, and data beyond the limit is at most one batch
Sound == s.n * s.sq[1] - s.sum[1] * s.sum[1] >= 0 /\ (Until > 0 => s.n < Until + 2)
=============================================================================
