--------------------------------- MODULE TD ---------------------------------
(***************************************************************************)
(* One update of a Q-learning agent whose value function is a table.       *)
(* All numbers are fixed point (S units to one).                           *)
(* c = [kind   "DQN" | "DoubleDQN" | "AL" | "PAL" | "DoublePAL" |           *)
(*             "DPP" | "DPPL" | "DPPGreedy",                                *)
(*      gn, gd  discount, an, ad  advantage weight, eta,                    *)
(*      clip    Huber loss, mean  batch accumulator, ln, ld  learning rate] *)
(* ev = [q, tq, qa   online and target tables before, online table after    *)
(*       batch       entries [s, a, rs, s2, terms, w]                       *)
(*       errs, haserr]                                                      *)
(* Rows are effective states (for recurrent agents: observation and         *)
(* recurrent state).                                                        *)
(***************************************************************************)
EXTENDS Fixed

G(c, x) == Mul(x, c.gn, c.gd)
RECURSIVE GPow(_, _, _)
GPow(c, x, k) == IF k = 0 THEN x ELSE GPow(c, G(c, x), k - 1)

RECURSIVE Return(_, _)
Return(c, rs) == IF rs = <<>> THEN 0 ELSE Head(rs) + G(c, Return(c, Tail(rs)))
Terminal(e) == \E i \in 1..Len(e.terms) : e.terms[i]

\* positions of a maximal entry; generated tables have one per row
Greedy(row) == CHOOSE i \in 1..Len(row) : \A j \in 1..Len(row) : row[i] >= row[j]
Adv(row, a) == row[a] - MaxSeq(row)

\* softmax-weighted mean: max + sum(E(q-max) (q-max)) / sum(E)
Weights(c, row) == [i \in 1..Len(row) |-> ExpNeg(((MaxSeq(row) - row[i]) * c.eta) \div (S \div 8))]
SoftMean(c, row) ==
    LET m == MaxSeq(row)
        w == Weights(c, row)
    IN  m + (SumSeq([i \in 1..Len(row) |-> w[i] * ((row[i] - m) \div 4)]) \div SumSeq(w)) * 4
LogSumExp(c, row) ==
    MaxSeq(row) + (LnF(SumSeq(Weights(c, row)) \div 4) \div c.eta)
L(c, row) == CASE c.kind = "DPP" -> SoftMean(c, row)
               [] c.kind = "DPPL" -> LogSumExp(c, row)
               [] OTHER -> MaxSeq(row)

IsDPP(c) == c.kind \in {"DPP", "DPPL", "DPPGreedy"}
Boot(c, q, tq, e) ==
    CASE c.kind \in {"DoubleDQN", "DoublePAL"} -> tq[e.s2][Greedy(q[e.s2])]
      [] OTHER -> L(c, tq[e.s2])
Bellman(c, q, tq, e) ==
    Return(c, e.rs) + (IF Terminal(e) THEN 0 ELSE GPow(c, Boot(c, q, tq, e), Len(e.rs)))
Target(c, q, tq, e) ==
    LET t == Bellman(c, q, tq, e) IN
    CASE c.kind = "AL" -> t + Mul(Adv(tq[e.s], e.a), c.an, c.ad)
      [] c.kind \in {"PAL", "DoublePAL"} ->
            t + Mul(Max2(Adv(tq[e.s], e.a), Adv(tq[e.s2], e.a)), c.an, c.ad)
      [] IsDPP(c) -> tq[e.s][e.a] + t - L(c, tq[e.s])
      [] OTHER -> t
Err(c, q, tq, e) == q[e.s][e.a] - Target(c, q, tq, e)
Slope(c, d) == IF c.clip THEN Clamp(d, 0 - S, S) ELSE d
\* change of the table caused by one entry
Delta(c, q, tq, e, n) ==
    0 - Mul(FMul(Slope(c, Err(c, q, tq, e)), e.w), c.ln, c.ld * (IF c.mean THEN n ELSE 1))
Updated(c, q, tq, batch) ==
    [s \in 1..Len(q) |-> [a \in 1..Len(q[s]) |->
        q[s][a] + SumSeq([i \in 1..Len(batch) |->
            IF batch[i].s = s /\ batch[i].a = a
            THEN Delta(c, q, tq, batch[i], Len(batch)) ELSE 0])]]

Tol(c, batch) == (IF IsDPP(c) THEN 24 ELSE 2) * Len(batch)

InitState(c) == [n |-> 0]
Clause(c, s, ev) ==
    LET exp == Updated(c, ev.q, ev.tq, ev.batch) IN
    IF ev.op # "update" THEN "unknown-event"
    ELSE IF ev.tqa # ev.tq THEN "target-network-changed"
    ELSE IF Len(ev.qa) # Len(ev.q) THEN "wrong-table"
    ELSE IF \E x \in 1..Len(ev.q) : \E a \in 1..Len(ev.q[x]) :
              /\ ~\E i \in 1..Len(ev.batch) : ev.batch[i].s = x /\ ev.batch[i].a = a
              /\ ev.qa[x][a] # ev.q[x][a] THEN "unsampled-value-changed"
    ELSE IF \E x \in 1..Len(ev.q) : \E a \in 1..Len(ev.q[x]) :
              ~Near(ev.qa[x][a], exp[x][a], Tol(c, ev.batch)) THEN "wrong-regression-target"
    ELSE IF ev.haserr /\ Len(ev.errs) # Len(ev.batch) THEN "wrong-number-of-errors"
    ELSE IF ev.haserr /\ \E i \in 1..Len(ev.batch) :
              ~Near(ev.errs[i], Abs(Err(c, ev.q, ev.tq, ev.batch[i])), Tol(c, <<1>>))
         THEN "wrong-error-reported"
    ELSE ""
Step(c, s, ev) == [s EXCEPT !.n = @ + 1]
=============================================================================
