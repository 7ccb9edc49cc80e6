------------------------------- MODULE Critic -------------------------------
(***************************************************************************)
(* One update of DDPG, TD3 or SAC with tabular parts (S units to one):      *)
(*   critic   Q(s, a) = u[s] + v[s] a                                       *)
(*   policy   action m[s] (plus the constant c.noise for SAC), log-density  *)
(*            lp[s]                                                         *)
(* c = [fam, gn, gd, ln, ld, shift (target policy smoothing), noise,        *)
(*      temp, adapt (temperature is learned), htarget]                      *)
(* ev.b, ev.a: the tables before and after:                                 *)
(*   u1 v1 u2 v2 tu1 tv1 tu2 tv2 m tm lp; ev.temp0, ev.temp1                *)
(***************************************************************************)
EXTENDS Fixed

G(c, x) == Mul(x, c.gn, c.gd)
RECURSIVE GPow(_, _, _)
GPow(c, x, k) == IF k = 0 THEN x ELSE GPow(c, G(c, x), k - 1)
RECURSIVE Return(_, _)
Return(c, rs) == IF rs = <<>> THEN 0 ELSE Head(rs) + G(c, Return(c, Tail(rs)))
Terminal(e) == \E i \in 1..Len(e.terms) : e.terms[i]
Q(u, v, s, a) == u[s] + FMul(v[s], a)

NextAction(c, b, s) ==
    CASE c.fam = "ddpg" -> b.tm[s]
      [] c.fam = "td3" -> b.tm[s] + c.shift
      [] OTHER -> b.m[s] + c.noise
Boot(c, b, s) ==
    LET a == NextAction(c, b, s)
        q1 == Q(b.tu1, b.tv1, s, a)
        q2 == Q(b.tu2, b.tv2, s, a)
    IN  CASE c.fam = "ddpg" -> q1
          [] c.fam = "td3" -> Min2(q1, q2)
          [] OTHER -> Min2(q1, q2) - FMul(c.temp, b.lp[s])
Target(c, b, e) ==
    Return(c, e.rs) + (IF Terminal(e) THEN 0 ELSE GPow(c, Boot(c, b, e.s2), Len(e.rs)))
\* derivative of the loss with respect to the prediction, times the batch size
Slope(c, b, u, v, e) == (IF c.fam = "sac" THEN 1 ELSE 2) * (Q(u, v, e.s, e.a) - Target(c, b, e))
Lr(c, x, n) == Mul(x, c.ln, c.ld * n)
NewU(c, b, u, v, batch) == [s \in 1..Len(u) |->
    u[s] - Lr(c, SumSeq([i \in 1..Len(batch) |-> IF batch[i].s = s THEN Slope(c, b, u, v, batch[i]) ELSE 0]), Len(batch))]
NewV(c, b, u, v, batch) == [s \in 1..Len(u) |->
    v[s] - Lr(c, SumSeq([i \in 1..Len(batch) |->
        IF batch[i].s = s THEN FMul(Slope(c, b, u, v, batch[i]), batch[i].a) ELSE 0]), Len(batch))]

Count(batch, s) == SumSeq([i \in 1..Len(batch) |-> IF batch[i].s = s THEN 1 ELSE 0])
\* the policy climbs the (updated) critic: first critic, or the smaller one for SAC
Gain(c, a, m, s) ==
    IF c.fam # "sac" THEN a.v1[s]
    ELSE IF Q(a.u1, a.v1, s, m[s] + c.noise) < Q(a.u2, a.v2, s, m[s] + c.noise) THEN a.v1[s] ELSE a.v2[s]
Tie(c, a, m, s) == c.fam = "sac"
    /\ Near(Q(a.u1, a.v1, s, m[s] + c.noise), Q(a.u2, a.v2, s, m[s] + c.noise), 6)
NewM(c, b, a, batch) == [s \in 1..Len(b.m) |-> b.m[s] + Lr(c, Count(batch, s) * Gain(c, a, b.m, s), Len(batch))]
NewLp(c, b, batch) == [s \in 1..Len(b.lp) |->
    IF c.fam = "sac" THEN b.lp[s] - Lr(c, Count(batch, s) * c.temp, Len(batch)) ELSE b.lp[s]]

Same(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Near(x[i], y[i], tol)
Excess(c, b, batch) == SumSeq([i \in 1..Len(batch) |-> b.lp[batch[i].s] + c.htarget])

InitState(c) == [n |-> 0]
Clause(c, s, ev) ==
    LET b == ev.b
        a == ev.a
        tol == 4 * Len(ev.batch)
    IN
    IF ev.op # "update" THEN "unknown-event"
    ELSE IF ~Same(a.u1, NewU(c, b, b.u1, b.v1, ev.batch), tol)
         \/ ~Same(a.v1, NewV(c, b, b.u1, b.v1, ev.batch), tol) THEN "wrong-critic-target"
    ELSE IF c.fam # "ddpg" /\ (~Same(a.u2, NewU(c, b, b.u2, b.v2, ev.batch), tol)
         \/ ~Same(a.v2, NewV(c, b, b.u2, b.v2, ev.batch), tol)) THEN "wrong-critic-target"
    ELSE IF \E x \in 1..Len(b.m) : ~Tie(c, a, b.m, x) /\ ~Near(a.m[x], NewM(c, b, a, ev.batch)[x], tol)
         THEN "wrong-policy-update"
    ELSE IF ~Same(a.lp, NewLp(c, b, ev.batch), tol) THEN "wrong-policy-update"
    ELSE IF ~c.adapt /\ ev.temp1 # ev.temp0 THEN "fixed-temperature-changed"
    ELSE IF c.adapt /\ Excess(c, b, ev.batch) > 8 * Len(ev.batch) /\ ~(ev.temp1 > ev.temp0) THEN "wrong-temperature-update"
    ELSE IF c.adapt /\ Excess(c, b, ev.batch) < 0 - 8 * Len(ev.batch) /\ ~(ev.temp1 < ev.temp0) THEN "wrong-temperature-update"
    ELSE ""
Step(c, s, ev) == [s EXCEPT !.n = @ + 1]
=============================================================================
