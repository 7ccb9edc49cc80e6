------------------------------ MODULE TrainBatch ------------------------------
(***************************************************************************)
(* The synchronous parallel training loop as seen by its collaborators.     *)
(* c = [n (environments), steps, offset, maxlen (0: none), ckpt (0: none),  *)
(*      hooks, eval, succ (-1: none)]                                       *)
(* Slots are 1..n; per-slot values are sequences of length n.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Rep(c, x) == [i \in 1..c.n |-> x]
InitState(c) ==
    [pc |-> "init", t |-> c.offset, elen |-> Rep(c, 0), epi |-> 0, obs |-> Rep(c, 0),
     act |-> Rep(c, 0), out |-> [obs |-> Rep(c, 0), r |-> Rep(c, 0), done |-> Rep(c, FALSE),
                                 need |-> Rep(c, FALSE)],
     over |-> Rep(c, FALSE),   \* episode ended and not reset since
     hook |-> 0, evald |-> FALSE, ck |-> {}, stop |-> FALSE, scores |-> << >>,
     exc |-> "", savedExc |-> FALSE]

ResetFlags(c, s) == [i \in 1..c.n |-> (c.maxlen > 0 /\ s.elen[i] = c.maxlen) \/ s.out.need[i]]
Ends(c, s) == [i \in 1..c.n |-> s.out.done[i] \/ ResetFlags(c, s)[i]]
NEnds(c, s) == Cardinality({ i \in 1..c.n : Ends(c, s)[i] })
Finished(c, s) == s.stop \/ s.t >= c.steps
CkptDue(c, s) == IF c.ckpt = 0 THEN {}
                 ELSE { k \in (s.t - c.n + 1)..s.t : k % c.ckpt = 0 }
Owed(c, s) ==
    IF s.hook < c.hooks * c.n THEN "hook-not-called"
    ELSE IF c.eval /\ ~s.evald THEN "evaluation-not-attempted"
    ELSE IF CkptDue(c, s) # s.ck THEN "checkpoint-missing"
    ELSE ""

Clause(c, s, ev) ==
  IF s.exc # "" /\ ev.op \notin {"save", "end"} THEN "call-after-failure"
  ELSE CASE ev.op = "reset" ->
        IF s.pc = "init" THEN (IF \E i \in 1..c.n : ev.mask[i] THEN "first-reset-masked" ELSE "")
        ELSE IF s.pc # "between" \/ Finished(c, s) THEN "unexpected-reset"
        ELSE IF \E i \in 1..c.n : ev.mask[i] = s.over[i] THEN "wrong-reset-mask"
        ELSE IF c.eval /\ ~s.evald THEN "reset-before-evaluation"
        ELSE IF ~ev.fault /\ \E i \in 1..c.n : ev.mask[i] /\ ev.obs[i] # s.obs[i]
             THEN "running-episode-disturbed" ELSE ""
    [] ev.op = "act" ->
        IF s.pc = "ready" THEN
            IF ev.obs # s.obs THEN "act-on-wrong-observation"
            ELSE IF ev.agent_t # c.offset THEN "agent-step-counter-not-set" ELSE ""
        ELSE IF s.pc = "between" THEN
            IF Finished(c, s) THEN "too-many-steps"
            ELSE IF Owed(c, s) # "" THEN Owed(c, s)
            ELSE IF \E i \in 1..c.n : s.over[i] THEN "no-reset-after-episode-end"
            ELSE IF ev.obs # s.obs THEN "act-on-wrong-observation" ELSE ""
        ELSE "unexpected-act"
    [] ev.op = "step" ->
        IF s.pc # "acted" THEN "unexpected-step"
        ELSE IF ev.a # s.act THEN "wrong-action-executed" ELSE ""
    [] ev.op = "observe" ->
        IF s.pc # "stepped" THEN "unexpected-observe"
        ELSE IF <<ev.obs, ev.r, ev.done>> # <<s.out.obs, s.out.r, s.out.done>> THEN "wrong-outcome-observed"
        ELSE IF ev.reset # ResetFlags(c, s) THEN "wrong-reset-flag" ELSE ""
    [] ev.op = "hook" ->
        IF s.pc # "between" \/ s.hook >= c.hooks * c.n THEN "unexpected-hook"
        ELSE IF ev.i # (s.hook % c.hooks) + 1 THEN "hook-order"
        ELSE IF ev.t # s.t - c.n + 1 + (s.hook \div c.hooks) THEN "hook-step-number" ELSE ""
    [] ev.op = "eval" ->
        IF s.pc # "between" \/ s.evald \/ ~c.eval THEN "unexpected-evaluation"
        ELSE IF ev.t # s.t THEN "evaluation-step-number"
        ELSE IF ev.episodes # s.epi THEN "evaluation-episode-count" ELSE ""
    [] ev.op = "save" ->
        CASE ev.suffix = "_checkpoint" ->
                IF s.pc # "between" \/ s.exc # "" \/ ev.t \in s.ck THEN "unexpected-checkpoint"
                ELSE IF ev.t \notin CkptDue(c, s) THEN "checkpoint-step-number" ELSE ""
          [] ev.suffix = "_except" ->
                IF s.exc = "" \/ s.savedExc THEN "unexpected-emergency-save"
                ELSE IF ev.t = s.t \/ (s.pc \in {"between", "stepped"} /\ ev.t \in (s.t - c.n)..s.t) THEN ""
                ELSE "emergency-save-step-number"
          [] ev.suffix = "_finish" ->
                IF s.exc # "" THEN "finished-after-failure"
                ELSE IF s.pc # "between" \/ ~Finished(c, s) THEN "finished-too-early"
                ELSE IF Owed(c, s) # "" THEN Owed(c, s)
                ELSE IF ev.t # s.t THEN "finish-step-number" ELSE ""
          [] OTHER -> "unknown-save"
    [] ev.op = "end" ->
        IF s.exc # ""
        THEN IF ev.kind # s.exc THEN "failure-swallowed-or-changed"
             ELSE IF s.pc # "init" /\ ~s.savedExc THEN "failure-without-saving" ELSE ""
        ELSE IF ev.kind # "return" THEN "raised-without-cause"
        ELSE IF s.pc # "finished" THEN "ended-without-saving"
        ELSE IF ev.scores # s.scores THEN "evaluation-history" ELSE ""
    [] OTHER -> "unknown-event"

Step(c, s, ev) ==
  IF ev.op = "save" /\ ev.suffix = "_except" THEN [s EXCEPT !.savedExc = TRUE]
  ELSE IF ev.op # "end" /\ ev.fault THEN [s EXCEPT !.exc = ev.kind]
  ELSE CASE ev.op = "reset" ->
        [s EXCEPT !.pc = IF @ = "init" THEN "ready" ELSE @, !.obs = ev.obs,
                  !.elen = [i \in 1..c.n |-> IF ev.mask[i] THEN @[i] ELSE 0],
                  !.over = [i \in 1..c.n |-> @[i] /\ ev.mask[i]]]
    [] ev.op = "act" -> [s EXCEPT !.pc = "acted", !.act = ev.a]
    [] ev.op = "step" ->
        [s EXCEPT !.pc = "stepped", !.t = @ + c.n, !.elen = [i \in 1..c.n |-> @[i] + 1],
                  !.obs = ev.obs,
                  !.out = [obs |-> ev.obs, r |-> ev.r, done |-> ev.done, need |-> ev.need],
                  !.hook = 0, !.evald = FALSE, !.ck = {}]
    [] ev.op = "observe" ->
        [s EXCEPT !.pc = "between", !.over = Ends(c, s), !.epi = @ + NEnds(c, s)]
    [] ev.op = "hook" -> [s EXCEPT !.hook = @ + 1]
    [] ev.op = "eval" ->
        [s EXCEPT !.evald = TRUE,
                  !.scores = IF ev.score >= 0 THEN Append(@, ev.score) ELSE @,
                  !.stop = c.succ >= 0 /\ ev.best >= c.succ]
    [] ev.op = "save" ->
        IF ev.suffix = "_checkpoint" THEN [s EXCEPT !.ck = @ \cup {ev.t}]
        ELSE [s EXCEPT !.pc = "finished"]
    [] OTHER -> s
=============================================================================
