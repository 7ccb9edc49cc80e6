------------------------------ MODULE TrainLoop ------------------------------
(***************************************************************************)
(* The serial training loop as seen by its collaborators.  Every call one  *)
(* of them receives is an event; Clause names the rule an event breaks in a*)
(* state ("" if none) and Step gives the successor state.                   *)
(*                                                                         *)
(* c = [steps, offset, maxlen (0: none), ckpt (0: none), hooks (number),    *)
(*      eval, evalDuring, succ (-1: none)]                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

InitState(c) ==
    [pc |-> "init", t |-> c.offset, elen |-> 0, epi |-> 0, obs |-> 0, act |-> 0,
     out |-> [obs |-> 0, r |-> 0, done |-> FALSE, need |-> FALSE],
     hook |-> 0,          \* hooks already called for this step
     evald |-> FALSE, rst |-> FALSE, ckd |-> FALSE, stop |-> FALSE,
     scores |-> << >>, exc |-> "", savedExc |-> FALSE, over |-> FALSE, ckpts |-> << >>]

ResetFlag(c, s) == (c.maxlen > 0 /\ s.elen = c.maxlen) \/ s.out.need
EpisodeEnd(c, s) == s.out.done \/ ResetFlag(c, s) \/ s.t = c.steps
EvalDue(c, s) == c.eval /\ (EpisodeEnd(c, s) \/ c.evalDuring)
Finished(c, s) == s.stop \/ s.t >= c.steps
ResetDue(c, s) == EpisodeEnd(c, s) /\ ~Finished(c, s)
CkptDue(c, s) == c.ckpt > 0 /\ s.t % c.ckpt = 0

\* everything owed between observe and the next act
Owed(c, s) ==
    IF s.hook < c.hooks THEN "hook-not-called"
    ELSE IF EvalDue(c, s) /\ ~s.evald THEN "evaluation-not-attempted"
    ELSE IF ResetDue(c, s) /\ ~s.rst THEN "no-reset-after-episode-end"
    ELSE IF CkptDue(c, s) /\ ~Finished(c, s) /\ ~s.ckd THEN "checkpoint-missing"
    ELSE ""

Clause(c, s, ev) ==
  IF s.exc # "" /\ ev.op \notin {"save", "end"} THEN "call-after-failure"
  ELSE CASE ev.op = "reset" ->
        IF s.pc = "init" THEN ""
        ELSE IF s.pc = "between" /\ ResetDue(c, s) /\ ~s.rst
             THEN IF EvalDue(c, s) /\ ~s.evald THEN "reset-before-evaluation" ELSE ""
        ELSE "unexpected-reset"
    [] ev.op = "act" ->
        IF s.pc = "ready" THEN
            IF s.t >= c.steps THEN "too-many-steps"
            ELSE IF ev.obs # s.obs THEN "act-on-wrong-observation"
            ELSE IF s.t = c.offset /\ ev.agent_t # c.offset THEN "agent-step-counter-not-set" ELSE ""
        ELSE IF s.pc = "between" THEN
            IF Finished(c, s) THEN "too-many-steps"
            ELSE IF Owed(c, s) # "" THEN Owed(c, s)
            ELSE IF ev.obs # s.obs THEN "act-on-wrong-observation" ELSE ""
        ELSE "unexpected-act"
    [] ev.op = "step" ->
        IF s.pc # "acted" THEN "unexpected-step"
        ELSE IF s.over THEN "step-after-episode-end"
        ELSE IF ev.a # s.act THEN "wrong-action-executed" ELSE ""
    [] ev.op = "observe" ->
        IF s.pc # "stepped" THEN "unexpected-observe"
        ELSE IF ev.fault THEN ""
        ELSE IF <<ev.obs, ev.r, ev.done>> # <<s.out.obs, s.out.r, s.out.done>> THEN "wrong-outcome-observed"
        ELSE IF ev.reset # ResetFlag(c, s) THEN "wrong-reset-flag" ELSE ""
    [] ev.op = "hook" ->
        IF s.pc # "between" THEN "unexpected-hook"
        ELSE IF ev.i # s.hook + 1 THEN "hook-order"
        ELSE IF ev.t # s.t THEN "hook-step-number" ELSE ""
    [] ev.op = "eval" ->
        IF s.pc # "between" \/ s.evald \/ ~EvalDue(c, s) THEN "unexpected-evaluation"
        ELSE IF ev.t # s.t THEN "evaluation-step-number"
        ELSE IF ev.episodes # s.epi THEN "evaluation-episode-count" ELSE ""
    [] ev.op = "save" ->
        CASE ev.suffix = "_checkpoint" ->
                IF s.pc # "between" \/ ~CkptDue(c, s) \/ s.ckd \/ s.exc # "" THEN "unexpected-checkpoint"
                ELSE IF ev.t # s.t THEN "checkpoint-step-number" ELSE ""
          [] ev.suffix = "_except" ->
                IF s.exc = "" \/ s.savedExc THEN "unexpected-emergency-save"
                ELSE IF ev.t # s.t THEN "emergency-save-step-number" ELSE ""
          [] ev.suffix = "_finish" ->
                IF s.exc # "" THEN "finished-after-failure"
                ELSE IF s.pc = "ready" /\ s.t >= c.steps THEN (IF ev.t = s.t THEN "" ELSE "finish-step-number")
                ELSE IF s.pc # "between" \/ ~Finished(c, s) THEN "finished-too-early"
                ELSE IF Owed(c, s) # "" THEN Owed(c, s)
                ELSE IF ev.t # s.t THEN "finish-step-number" ELSE ""
          [] OTHER -> "unknown-save"
    [] ev.op = "end" ->
        IF s.exc # ""
        THEN IF ev.kind # s.exc THEN "failure-swallowed-or-changed"
             ELSE IF s.pc # "init" /\ ~s.savedExc THEN "failure-without-saving" ELSE ""
        ELSE IF ev.kind # "return" THEN "raised-without-cause"
        ELSE IF s.pc # "finished" THEN "ended-without-saving"
        ELSE IF ev.scores # s.scores THEN "evaluation-history" ELSE ""
    [] OTHER -> "unknown-event"

Step(c, s, ev) ==
  IF ev.op = "save" /\ ev.suffix = "_except" THEN [s EXCEPT !.savedExc = TRUE]
  ELSE IF ev.op # "end" /\ ev.fault THEN [s EXCEPT !.exc = ev.kind]
  ELSE CASE ev.op = "reset" ->
        [s EXCEPT !.pc = IF @ = "init" THEN "ready" ELSE @, !.obs = ev.obs, !.elen = 0,
                  !.rst = TRUE, !.over = FALSE]
    [] ev.op = "act" -> [s EXCEPT !.pc = "acted", !.act = ev.a]
    [] ev.op = "step" ->
        [s EXCEPT !.pc = "stepped", !.t = @ + 1, !.elen = @ + 1, !.obs = ev.obs,
                  !.out = [obs |-> ev.obs, r |-> ev.r, done |-> ev.done, need |-> ev.need],
                  !.hook = 0, !.evald = FALSE, !.rst = FALSE, !.ckd = FALSE]
    [] ev.op = "observe" ->
        [s EXCEPT !.pc = "between", !.over = s.out.done \/ ResetFlag(c, s),
                  !.epi = IF EpisodeEnd(c, s) THEN @ + 1 ELSE @]
    [] ev.op = "hook" -> [s EXCEPT !.hook = @ + 1]
    [] ev.op = "eval" ->
        [s EXCEPT !.evald = TRUE,
                  !.scores = IF ev.score >= 0 THEN Append(@, ev.score) ELSE @,
                  !.stop = c.succ >= 0 /\ ev.best >= c.succ]
    [] ev.op = "save" ->
        IF ev.suffix = "_checkpoint" THEN [s EXCEPT !.ckd = TRUE, !.ckpts = Append(@, ev.t)]
        ELSE [s EXCEPT !.pc = "finished"]
    [] OTHER -> s
=============================================================================
