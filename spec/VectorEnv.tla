----------------------------- MODULE VectorEnv ------------------------------
(***************************************************************************)
(* A vector environment over n environments.  Environment i is a           *)
(* deterministic automaton whose answer is determined by how many calls it  *)
(* has had (e.n), the seed it was given (e.seed) and the action; c.dones[i] *)
(* is its script of terminal flags.  The rule: at position i the vector     *)
(* environment answers what environment i alone answers.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

InitState(c) ==
    [env |-> [i \in 1..c.n |-> [n |-> 0, seed |-> 0]],
     last |-> [i \in 1..c.n |-> 0 - 1],          \* -1: none yet
     closed |-> FALSE]

At(q, k) == q[((k - 1) % Len(q)) + 1]
\* the k-th answer of environment i
Obs(i, e) == i * 1000000 + (e.seed % 100) * 10000 + e.n
ResetEnv(e) == [e EXCEPT !.n = @ + 1]
StepEnv(e) == [e EXCEPT !.n = @ + 1]
Answer(c, i, e, a) ==   \* e: after the call
    <<Obs(i, e), a * 10 + (e.n % 7), At(c.dones[i], e.n), e.n % 3 = 0>>

Clause(c, s, ev) ==
  CASE ev.op = "reset" ->
        IF s.closed THEN "used-after-close"
        ELSE IF \E i \in 1..c.n : ev.mask[i] /\ ev.obs[i] # s.last[i] THEN "masked-observation-changed"
        ELSE IF \E i \in 1..c.n : ~ev.mask[i] /\ ev.obs[i] # Obs(i, ResetEnv(s.env[i])) THEN "wrong-reset-answer"
        ELSE ""
    [] ev.op = "step" ->
        IF Len(ev.ans) # c.n THEN "wrong-number-of-answers"
        ELSE IF \E i \in 1..c.n : ev.ans[i] # Answer(c, i, StepEnv(s.env[i]), ev.a[i]) THEN "wrong-step-answer" ELSE ""
    [] ev.op = "seed" -> ""
    [] ev.op = "attrs" ->
        IF ev.numenvs # c.n THEN "wrong-number-of-environments"
        ELSE IF ~ev.spaces THEN "wrong-spaces" ELSE IF ~ev.spec THEN "wrong-spec" ELSE ""
    [] ev.op = "badseed" -> IF ev.raised THEN "" ELSE "wrong-number-of-seeds-accepted"
    [] ev.op = "close" ->
        IF \E i \in 1..c.n : ev.closes[i] # 1 THEN "environment-not-closed-once"
        ELSE IF ev.alive # 0 THEN "worker-left-alive" ELSE ""
    [] ev.op = "afterclose" -> IF ev.raised THEN "" ELSE "used-after-close"
    [] OTHER -> "unknown-event"

Step(c, s, ev) ==
  CASE ev.op = "reset" ->
        [s EXCEPT !.env = [i \in 1..c.n |-> IF ev.mask[i] THEN @[i] ELSE ResetEnv(@[i])],
                  !.last = ev.obs]
    [] ev.op = "step" ->
        [s EXCEPT !.env = [i \in 1..c.n |-> StepEnv(@[i])],
                  !.last = [i \in 1..c.n |-> ev.ans[i][1]]]
    [] ev.op = "seed" -> [s EXCEPT !.env = [i \in 1..c.n |-> [@[i] EXCEPT !.seed = ev.seeds[i]]]]
    [] ev.op = "close" -> [s EXCEPT !.closed = TRUE]
    [] OTHER -> s
=============================================================================
