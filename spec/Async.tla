------------------------------- MODULE Async -------------------------------
(***************************************************************************)
(* Asynchronous training as seen by the environments, agents and hooks of   *)
(* all workers, in one global order of calls.                               *)
(* c = [w (workers), steps, offset, maxlen (0: none), hooks (>=1),          *)
(*      interval (0: no evaluation), succ (-1: none)]                       *)
(* Worker numbers are 1..w; worker 1 is process 0.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

W0 == [pc |-> "init", t |-> 0, elen |-> 0, obs |-> 0, act |-> 0,
       out |-> [obs |-> 0, r |-> 0, done |-> FALSE, need |-> FALSE],
       hook |-> 0, rst |-> FALSE,
       ev |-> 0,            \* 0: not evaluated in this step, 1: evaluating, 2: evaluated
       mean |-> -1, bestSaved |-> FALSE, exc |-> FALSE, savedExc |-> FALSE, fin |-> FALSE,
       succ |-> FALSE, afterStop |-> 0, afterExc |-> 0, killed |-> FALSE, code |-> -1]
InitState(c) ==
    [w |-> [i \in 1..c.w |-> W0], ts |-> {}, observed |-> 0,
     evals |-> {},              \* <<worker, t>> of evaluations begun
     best |-> -1, maxMean |-> -1, finishes |-> 0,
     mayStop |-> FALSE, stopped |-> FALSE, exc |-> FALSE, killed |-> FALSE]

Base(c) == c.offset - (c.offset % c.interval)
ResetFlag(c, p) == (c.maxlen > 0 /\ p.elen = c.maxlen) \/ p.out.need
EpEnd(c, p) == p.out.done \/ ResetFlag(c, p)
\* evaluations begun at step numbers >= k
EvalsFrom(s, k) == Cardinality({ e \in s.evals : e[2] >= k })
\* the evaluations can be matched one to one with crossed interval ends: for every k,
\* at most as many evaluations as interval ends up to k took place at steps up to k
ClaimsOK(c, s) ==
    \A e \in s.evals :
       Cardinality({ f \in s.evals : f[2] <= e[2] }) <= (e[2] - Base(c)) \div c.interval
\* workers which may have claimed an evaluation without having begun it
Pending(c, s, me) ==
    Cardinality({ i \in 1..c.w : i # me /\ s.w[i].pc = "between" /\ s.w[i].hook = c.hooks
                                /\ s.w[i].ev = 0 })
EvalMissed(c, s, i) ==
    /\ c.interval > 0
    /\ s.w[i].ev = 0
    /\ Cardinality(s.evals) + Pending(c, s, i) < (s.w[i].t - Base(c)) \div c.interval

Clause(c, s, ev) ==
  IF ev.op = "stopreq" \/ ev.op = "stopset" \/ ev.op = "excset" THEN ""
  ELSE IF ev.op = "final" THEN
    IF ev.deadlock THEN "deadlock"
    ELSE IF \E i \in 1..c.w : s.w[i].pc # "exited" THEN "worker-lost"
    ELSE IF ~s.killed /\ ev.warn # Cardinality({ i \in 1..c.w : s.w[i].code # 0 }) THEN "failure-not-reported"
    ELSE IF ~s.killed /\ s.ts # (c.offset + 1)..(c.offset + Cardinality(s.ts)) THEN "step-numbers-not-contiguous"
    ELSE IF ~s.killed /\ (\A i \in 1..c.w : ~s.w[i].exc) /\ Cardinality(s.ts) # s.observed THEN "steps-not-counted"
    ELSE IF (\A i \in 1..c.w : s.w[i].code = 0) /\ ~s.mayStop /\ s.finishes # 1 THEN "final-model-not-saved-once"
    ELSE IF c.interval > 0 /\ s.maxMean >= 0 /\ ~s.killed /\ (\A i \in 1..c.w : ~s.w[i].exc)
         THEN IF ev.max # s.maxMean THEN "best-score-lost"
              ELSE IF s.best # s.maxMean THEN "best-model-lost" ELSE ""
    ELSE ""
  ELSE LET i == ev.w  p == s.w[ev.w] IN
    IF p.pc = "exited" THEN "call-after-exit"
    ELSE IF p.exc /\ ev.op \notin {"save", "exit"} THEN "call-after-failure"
    ELSE CASE ev.op = "reset" ->
        IF p.pc = "init" THEN ""
        ELSE IF p.pc # "between" \/ p.rst \/ ~(EpEnd(c, p) \/ s.mayStop) \/ p.t >= c.steps THEN "unexpected-reset"
        ELSE IF p.ev = 1 THEN "reset-during-evaluation" ELSE ""
    [] ev.op = "act" ->
        IF p.pc \notin {"ready", "between"} THEN "unexpected-act"
        ELSE IF p.pc = "between" /\ p.hook # c.hooks THEN "hook-not-called"
        ELSE IF p.pc = "between" /\ p.t >= c.steps THEN "too-many-steps"
        ELSE IF s.stopped /\ p.afterStop > 0 THEN "runs-on-after-stop"
        ELSE IF s.exc /\ i = 1 /\ p.afterExc > 0 THEN "runs-on-after-failure-elsewhere"
        ELSE IF p.pc = "between" /\ EpEnd(c, p) /\ ~p.rst THEN "no-reset-after-episode-end"
        ELSE IF p.pc = "between" /\ EpEnd(c, p) /\ EvalMissed(c, s, i) THEN "evaluation-missed"
        ELSE IF ev.obs # p.obs THEN "act-on-wrong-observation" ELSE ""
    [] ev.op = "step" ->
        IF p.pc # "acted" THEN "unexpected-step"
        ELSE IF ev.a # p.act THEN "wrong-action-executed" ELSE ""
    [] ev.op = "observe" ->
        IF p.pc # "stepped" THEN "unexpected-observe"
        ELSE IF <<ev.obs, ev.r, ev.done>> # <<p.out.obs, p.out.r, p.out.done>> THEN "wrong-outcome-observed"
        ELSE IF ev.reset # ResetFlag(c, p) THEN "wrong-reset-flag" ELSE ""
    [] ev.op = "hook" ->
        IF p.pc # "between" \/ ev.i # p.hook + 1 THEN "unexpected-hook"
        ELSE IF ev.i = 1 /\ ev.t \in s.ts THEN "step-counted-twice"
        ELSE IF ev.i = 1 /\ (ev.t <= p.t \/ ev.t <= c.offset \/ ev.t > c.offset + s.observed) THEN "wrong-step-number"
        ELSE IF ev.i > 1 /\ ev.t # p.t THEN "wrong-step-number" ELSE ""
    [] ev.op = "evalstart" ->
        IF c.interval = 0 \/ p.pc # "between" \/ p.hook # c.hooks \/ p.ev # 0 THEN "unexpected-evaluation"
        ELSE IF ~ClaimsOK(c, [s EXCEPT !.evals = @ \cup {<<i, p.t>>}]) THEN "interval-evaluated-twice"
        ELSE ""
    [] ev.op = "evald" ->
        IF p.ev # 1 THEN "unexpected-evaluation-report"
        ELSE IF ev.t # p.t THEN "evaluation-step-number" ELSE ""
    [] ev.op = "save" ->
        CASE ev.suffix = "best" ->
                IF p.ev # 2 \/ p.bestSaved THEN "unexpected-best-save"
                ELSE IF p.mean <= s.best THEN "best-model-overwritten" ELSE ""
          [] ev.suffix = "_finish" ->
                IF p.pc # "between" \/ p.t # c.steps \/ ev.t # c.steps \/ s.finishes > 0
                THEN "unexpected-final-save" ELSE ""
          [] ev.suffix = "successful" ->
                IF c.succ < 0 \/ p.ev # 2 \/ p.mean < c.succ THEN "unexpected-success-save" ELSE ""
          [] ev.suffix = "_except" ->
                IF i # 1 \/ ~(p.exc \/ s.exc) THEN "unexpected-emergency-save"
                ELSE IF ev.t # p.t THEN "emergency-save-step-number" ELSE ""
          [] OTHER -> "unknown-save"
    [] ev.op = "killall" ->
        IF ~s.exc \/ i # 1 THEN "unexpected-kill" ELSE IF ~p.savedExc THEN "killed-without-saving" ELSE ""
    [] ev.op = "exit" ->
        IF s.killed THEN ""
        ELSE IF p.exc THEN (IF ev.code = 0 THEN "failure-swallowed"
                            ELSE IF i = 1 /\ ~p.savedExc /\ p.pc # "init" THEN "failure-without-saving" ELSE "")
        ELSE IF ev.code # 0 THEN "failed-without-cause"
        ELSE IF p.pc # "between" \/ p.hook # c.hooks THEN "exit-in-the-middle"
        ELSE IF p.t < c.steps /\ ~s.mayStop THEN "stopped-too-early"
        ELSE IF p.t = c.steps /\ ~p.fin THEN "final-model-not-saved"
        ELSE IF c.succ >= 0 /\ p.ev = 2 /\ p.mean >= c.succ /\ ~p.succ THEN "successful-model-not-saved"
        ELSE IF EvalMissed(c, s, i) THEN "evaluation-missed" ELSE ""
    [] OTHER -> "unknown-event"

Max2(a, b) == IF a > b THEN a ELSE b
Step(c, s, ev) ==
  IF ev.op = "stopreq" THEN [s EXCEPT !.mayStop = TRUE]
  ELSE IF ev.op = "stopset" THEN [s EXCEPT !.mayStop = TRUE, !.stopped = TRUE]
  ELSE IF ev.op = "excset" THEN [s EXCEPT !.exc = TRUE]
  ELSE IF ev.op = "final" THEN s
  ELSE LET i == ev.w IN
    CASE ev.op = "exit" -> [s EXCEPT !.w[i].pc = "exited", !.w[i].code = ev.code]
    [] ev.op = "killall" -> [s EXCEPT !.killed = TRUE]
    [] ev.op = "save" ->
        CASE ev.suffix = "best" -> [s EXCEPT !.best = s.w[i].mean, !.w[i].bestSaved = TRUE]
          [] ev.suffix = "_finish" -> [s EXCEPT !.finishes = @ + 1, !.w[i].fin = TRUE]
          [] ev.suffix = "successful" -> [s EXCEPT !.w[i].succ = TRUE, !.stopped = TRUE, !.mayStop = TRUE]
          [] OTHER -> [s EXCEPT !.w[i].savedExc = TRUE]
    [] ev.op = "evalstart" -> [s EXCEPT !.w[i].ev = 1, !.evals = @ \cup {<<i, s.w[i].t>>}]
    [] ev.op = "evald" ->
        [s EXCEPT !.w[i].ev = 2, !.w[i].mean = ev.mean, !.w[i].bestSaved = FALSE,
                  !.maxMean = Max2(@, ev.mean),
                  !.mayStop = @ \/ (c.succ >= 0 /\ ev.mean >= c.succ)]
    [] ev.op = "hook" -> [s EXCEPT !.w[i].hook = @ + 1, !.w[i].t = ev.t, !.ts = @ \cup {ev.t},
                                   !.w[i].exc = ev.fault]
    [] ev.fault -> [s EXCEPT !.w[i].exc = TRUE]
    [] ev.op = "reset" ->
        [s EXCEPT !.w[i].pc = IF @ = "init" THEN "ready" ELSE @, !.w[i].obs = ev.obs,
                  !.w[i].elen = 0, !.w[i].rst = TRUE]
    [] ev.op = "act" ->
        [s EXCEPT !.w[i].pc = "acted", !.w[i].act = ev.a,
                  !.w[i].afterStop = IF s.stopped THEN @ + 1 ELSE @,
                  !.w[i].afterExc = IF s.exc THEN @ + 1 ELSE @]
    [] ev.op = "step" ->
        [s EXCEPT !.w[i].pc = "stepped", !.w[i].elen = @ + 1, !.w[i].obs = ev.obs,
                  !.w[i].out = [obs |-> ev.obs, r |-> ev.r, done |-> ev.done, need |-> ev.need],
                  !.w[i].hook = 0, !.w[i].rst = FALSE, !.w[i].ev = 0]
    [] ev.op = "observe" -> [s EXCEPT !.w[i].pc = "between", !.observed = @ + 1]
    [] OTHER -> s
=============================================================================
