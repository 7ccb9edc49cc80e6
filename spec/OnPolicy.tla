------------------------------- MODULE OnPolicy -------------------------------
(***************************************************************************)
(* A2C, A3C and REINFORCE: what weighs the log-probability of an action.      *)
(* The model is a table: value V[id] of an observation (shifted by dv as the   *)
(* optimizer changes the parameters), a log-probability per observation and   *)
(* action, an entropy per observation.                                        *)
(* c = [algo "a2c"|"a3c"|"reinforce", n, T  steps (episodes for reinforce)     *)
(*      per update, V, gn, gd  discount, gae, ln, ld  lambda, pn, pd, vn, vd   *)
(*      coefficients of the losses, ent  entropy coefficient,                  *)
(*      keep, bymax  loss scaling of A3C]                                      *)
(* Events: act [obs, a], observe [nobs, r, done, reset],                       *)
(* step [items [id, gl, gv, ge], dv  change of the values by this step], end.  *)
(* Gradients of A2C are multiplied by the number of transitions, those of      *)
(* REINFORCE by the number of episodes.                                        *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets

InitState(c) == [pc |-> "idle", obs |-> <<>>, a |-> <<>>, dv |-> 0,
                 roll |-> [e \in 1..c.n |-> <<>>],     \* transitions per environment
                 eps |-> <<>>,                         \* finished episodes (reinforce)
                 due |-> FALSE, len |-> 0]

Val(c, s, id) == c.V[id] + s.dv
G(c, x) == Mul(x, c.gn, c.gd)
GL(c, x) == Mul(Mul(x, c.gn, c.gd), c.ln, c.ld)
\* an interruption cuts like the end of an episode; only A3C bootstraps over it
Cut(t) == t.done \/ t.reset
Boot(c, t) == IF c.algo = "a3c" THEN ~t.done ELSE ~Cut(t)
RECURSIVE Ret(_, _, _)
\* returns of a sequence of transitions of one environment
Ret(c, s, q) ==
    IF q = <<>> THEN <<>>
    ELSE LET t == Head(q)
             rest == Ret(c, s, Tail(q))
             after == IF Cut(t) \/ rest = <<>>
                      THEN (IF Boot(c, t) THEN Val(c, s, t.nid) ELSE 0)
                      ELSE rest[1]
         IN <<t.r + G(c, after)>> \o rest
RECURSIVE Gaes(_, _, _)
Gaes(c, s, q) ==
    IF q = <<>> THEN <<>>
    ELSE LET t == Head(q)
             rest == Gaes(c, s, Tail(q))
             delta == t.r + (IF Boot(c, t) THEN G(c, Val(c, s, t.nid)) ELSE 0) - Val(c, s, t.id)
         IN <<delta + (IF Cut(t) \/ rest = <<>> THEN 0 ELSE GL(c, rest[1]))>> \o rest
RECURSIVE Sums(_)
Sums(q) == IF q = <<>> THEN <<>>
           ELSE LET rest == Sums(Tail(q)) IN <<Head(q).r + (IF rest = <<>> THEN 0 ELSE rest[1])>> \o rest
Weights(c, s, q) ==
    IF c.algo = "reinforce" THEN Sums(q)
    ELSE IF c.gae THEN Gaes(c, s, q)
    ELSE LET r == Ret(c, s, q) IN [i \in 1..Len(q) |-> r[i] - Val(c, s, q[i].id)]
RECURSIVE Flat(_, _, _)
Flat(c, s, qs) ==
    IF qs = <<>> THEN <<>>
    ELSE LET q == Head(qs)
             w == Weights(c, s, q)
         IN [i \in 1..Len(q) |-> [id |-> q[i].id, a |-> q[i].a, w |-> w[i]]] \o Flat(c, s, Tail(qs))
Batch(c, s) == Flat(c, s, IF c.algo = "reinforce" THEN s.eps ELSE [e \in 1..c.n |-> s.roll[e]])
\* loss scaling of A3C
Scaled(c, s, x) ==
    IF c.algo # "a3c" THEN x
    ELSE LET k == s.len
             y == IF c.keep /\ k < c.T THEN Mul(x, c.T, k) ELSE x
         IN IF c.bymax THEN Mul(y, 1, k) ELSE y
PolGrad(c, s, w) == 0 - Scaled(c, s, Mul(w, c.pn, c.pd))
ValGrad(c, s, w) ==
    IF c.algo = "reinforce" THEN 0
    ELSE 0 - Scaled(c, s, Mul((IF c.algo = "a2c" THEN 2 ELSE 1) * w, c.vn, c.vd))
EntGrad(c, s) == 0 - (IF c.algo = "a3c" THEN Scaled(c, s, Mul(c.ent, c.pn, c.pd)) ELSE c.ent)

ItemOK(c, s, b, it) ==
    LET e == b[CHOOSE i \in 1..Len(b) : b[i].id = it.id]
        tol == 16 + (4 * Max2(c.T, 1))
    IN  IF \E k \in 1..Len(it.gl) : k # e.a + 1 /\ it.gl[k] # 0 THEN "wrong-action-in-loss"
        ELSE IF ~Near(it.gl[e.a + 1], PolGrad(c, s, e.w), tol) THEN "wrong-return"
        ELSE IF ~Near(it.gv, ValGrad(c, s, e.w), tol) THEN "wrong-value-target"
        ELSE IF ~Near(it.ge, EntGrad(c, s), tol) THEN "wrong-entropy-bonus"
        ELSE ""
Ids(q) == { q[i].id : i \in 1..Len(q) }

Clause(c, s, ev) ==
  CASE ev.op = "act" -> IF s.pc # "idle" THEN "unexpected-act" ELSE ""
    [] ev.op = "observe" -> IF s.pc # "acted" THEN "unexpected-observe" ELSE ""
    [] ev.op = "step" ->
        LET b == Batch(c, s) IN
        IF ~s.due THEN "update-at-the-wrong-time"
        ELSE IF Ids(ev.items) # Ids(b) THEN "wrong-transitions-in-update"
        ELSE LET bad == { i \in 1..Len(ev.items) : ItemOK(c, s, b, ev.items[i]) # "" } IN
             IF bad = {} THEN "" ELSE ItemOK(c, s, b, ev.items[CHOOSE i \in bad : TRUE])
    [] ev.op = "end" ->
        IF s.pc # "observed" THEN "unexpected-end"
        ELSE IF s.due THEN "update-missing" ELSE ""
    [] OTHER -> "unknown-event"

Observed(c, s, ev) ==
    LET tr(e) == [id |-> s.obs[e], a |-> s.a[e], r |-> ev.r[e], nid |-> ev.nobs[e],
                  done |-> ev.done[e], reset |-> ev.reset[e]]
        roll == [e \in 1..c.n |-> Append(s.roll[e], tr(e))]
        over == ev.done[1] \/ ev.reset[1]
        s1 == [s EXCEPT !.pc = "observed", !.roll = roll, !.len = @ + 1]
    IN  CASE c.algo = "a2c" -> [s1 EXCEPT !.due = (s1.len = c.T)]
          [] c.algo = "a3c" -> [s1 EXCEPT !.due = (s1.len = c.T \/ over)]
          [] OTHER ->
             IF ~over THEN s1
             ELSE LET eps == IF ev.done[1] THEN Append(s.eps, roll[1]) ELSE s.eps
                  IN [s1 EXCEPT !.roll = <<<<>>>>, !.len = 0, !.eps = eps, !.due = ev.done[1] /\ Len(eps) = c.T]
Step(c, s, ev) ==
  CASE ev.op = "act" -> [s EXCEPT !.pc = "acted", !.obs = ev.obs, !.a = ev.a]
    [] ev.op = "observe" -> Observed(c, s, ev)
    [] ev.op = "step" -> [s EXCEPT !.roll = [e \in 1..c.n |-> <<>>], !.eps = <<>>, !.len = 0, !.due = FALSE,
                                   !.dv = @ + ev.dv]
    [] ev.op = "end" -> [s EXCEPT !.pc = "idle"]
    [] OTHER -> s
=============================================================================
