---------------------------- MODULE ActorLearner ----------------------------
(***************************************************************************)
(* Actor-learner training: actors act with a shared copy of the model and  *)
(* send transitions and requests to the learner's process, where a poller  *)
(* puts transitions in the replay buffer and a learner updates the model.  *)
(*                                                                         *)
(* Every event carries the values of the learner's model (m), its target   *)
(* (tg), the actors' model (sh), the refresh counter (uc) and the exception*)
(* flag (exc), so that every change is seen no later than the next event.  *)
(*                                                                         *)
(* cfg: n actors, iv refresh interval, ui update interval, ti target       *)
(* interval, rs replay start size, nu requested updates (0: unlimited)     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

As(c) == 1..c.n
NoReq == [k |-> "none", d |-> 0, u |-> 0, ap |-> 0, seen |-> {}]
InitState(c) ==
    [q |-> [i \in As(c) |-> << >>],          \* sent, not yet stored
     lastk |-> [i \in As(c) |-> "none"],     \* how the last stored transition ended
     t |-> [i \in As(c) |-> 0],
     req |-> [i \in As(c) |-> NoReq],
     saved |-> [d \in 0..c.n |-> IF d = 0 THEN <<c.m0, c.m0>> ELSE << >>],
     busy |-> 0, app |-> 0, u |-> 0, m |-> 0, tg |-> 0, sh |-> 0, uc |-> 0,
     hook |-> 0, ohook |-> 0, post |-> FALSE, sampled |-> FALSE, seen |-> {0}, reload |-> FALSE,
     failed |-> FALSE, lfailed |-> FALSE, soft |-> FALSE, exc |-> FALSE, lstop |-> FALSE, pstop |-> FALSE, lend |-> FALSE,
     pend |-> FALSE, adead |-> {}]

Loading(c, st) == { i \in As(c) : st.req[i].k = "load" /\ st.req[i].d \in 0..c.n
                                  /\ st.saved[st.req[i].d] # << >> }
RefreshDue(c, st) == st.u > 0 /\ st.u % c.iv = 0
SyncDue(c, st) == st.u > 0 /\ (st.u * c.ui) % c.ti = 0

\* what may have changed since the event before
Drift(c, st, ev) ==
    IF ev.m # st.m /\ ~(\E i \in Loading(c, st) : ev.m = st.saved[st.req[i].d][1]) THEN "model-changed"
    ELSE IF ev.tg # st.tg
            /\ ~(st.post /\ SyncDue(c, st) /\ ev.tg \in st.seen \cup {ev.m})
            /\ ~(\E i \in Loading(c, st) : ev.tg = st.saved[st.req[i].d][2]) THEN "target-changed"
    ELSE IF ev.sh # st.sh /\ ~(st.post /\ RefreshDue(c, st) /\ ev.sh \in st.seen \cup {ev.m})
         THEN "actor-model-changed"
    ELSE IF ev.uc # st.uc /\ ~(st.post /\ RefreshDue(c, st) /\ ev.uc = st.u \div c.iv)
         THEN "refresh-counter"
    ELSE IF st.exc /\ ~ev.exc THEN "exception-flag-cleared"
    ELSE IF ev.exc /\ ~st.failed /\ ~st.soft THEN "exception-flag"
    ELSE ""

\* everything an update entails has happened before the next one begins
Complete(c, st, ev) ==
    IF st.u = 0 \/ ~st.post THEN ""
    ELSE IF st.hook # 1 \/ st.ohook # 1 THEN "hooks"
    ELSE IF ev.uc # st.u \div c.iv THEN "refresh-counter"
    ELSE IF RefreshDue(c, st) /\ ~(ev.sh \in st.seen \cup {ev.m}) THEN "actor-model-stale"
    ELSE IF SyncDue(c, st) /\ ~st.reload /\ ~(ev.tg \in st.seen \cup {ev.m}) THEN "target-stale"
    ELSE ""

Buf(c, st, ev) ==
    IF st.busy # 0 THEN "overlapping-buffer-operations"
    ELSE CASE ev.k = "append" ->
            IF ~(ev.env \in As(c)) THEN "unknown-environment"
            ELSE IF st.q[ev.env] = << >> THEN "duplicate-transition"
            ELSE LET h == st.q[ev.env][1] IN
                 IF <<ev.s, ev.a, ev.r, ev.nx, ev.d>> # <<h.s, h.a, h.r, h.nx, h.d>> THEN "wrong-transition"
                 ELSE IF st.lastk[ev.env] = "cut" THEN "episode-end-lost"
                 ELSE ""
         [] ev.k = "stop" ->
            IF ~(ev.env \in As(c)) THEN "unknown-environment"
            ELSE IF st.lastk[ev.env] = "open" THEN "episode-cut"
            ELSE ""
         [] ev.k = "sample" ->
            IF st.sampled THEN "sampled-twice"
            ELSE IF ev.n < c.rs THEN "sampled-too-early"
            ELSE IF c.nu > 0 /\ st.u >= c.nu THEN "too-many-updates"
            ELSE Complete(c, st, ev)
         [] OTHER -> ""

Rep(c, st, ev) ==
    LET r == st.req[ev.w] IN
    IF r.k # ev.k THEN "reply-without-request"
    ELSE IF ~ev.ok THEN
        IF ev.k = "load" /\ ~(r.d \in 0..c.n) THEN "" ELSE
        IF ev.k = "load" /\ st.saved[r.d] = << >> THEN "" ELSE
        IF st.failed \/ st.soft THEN "" ELSE "request-failed"
    ELSE CASE ev.k = "stats" ->
            IF ~(r.u <= ev.nu /\ ev.nu <= st.u) THEN "statistics-updates"
            ELSE IF ~(r.ap <= ev.cum /\ ev.cum <= st.app) THEN "statistics-steps"
            ELSE ""
         [] ev.k = "save" -> IF ~(ev.sv \in r.seen \cup {ev.m} \cup { st.saved[st.req[i].d][1] : i \in Loading(c, st) }) THEN "saved-model" ELSE ""
         [] ev.k = "load" ->
            IF ~(r.d \in 0..c.n) THEN "loaded-nothing"
            ELSE IF st.saved[r.d] = << >> THEN "loaded-nothing"
            ELSE IF ~(st.saved[r.d][1] \in r.seen \cup {ev.m}) THEN "not-loaded"
            ELSE ""
         [] OTHER -> "unknown-request"

Own(c, st, ev) ==
    CASE ev.op = "act" ->
            IF ~(ev.a \in {ev.sh0, ev.sh}) THEN "acts-by-another-model"
            ELSE IF ev.train /\ ev.t # st.t[ev.w] THEN "exploration-step"
            ELSE ""
      [] ev.op = "obs" -> ""
      [] ev.op = "obsend" -> IF ev.ok \/ st.failed \/ st.soft THEN "" ELSE "observe-failed"
      [] ev.op = "req" -> IF st.req[ev.w].k # "none" THEN "two-requests" ELSE ""
      [] ev.op = "rep" -> Rep(c, st, ev)
      [] ev.op = "bufin" -> Buf(c, st, ev)
      [] ev.op = "bufout" -> ""
      [] ev.op = "update" ->
            IF ~st.sampled THEN "update-without-sample"
            ELSE IF ev.m2 # ev.m + 1 THEN "update-effect"
            ELSE ""
      [] ev.op = "hook" ->
            IF ~st.post \/ st.hook # 0 THEN "hook-calls"
            ELSE IF ev.t # st.u * c.ui THEN "hook-step" ELSE ""
      [] ev.op = "ohook" ->
            IF ~st.post \/ st.ohook # 0 THEN "optimizer-hook-calls"
            ELSE IF ev.t # st.u THEN "optimizer-hook-step" ELSE ""
      [] ev.op = "fault" -> ""
      [] ev.op \in {"lstop", "pstop", "killall"} -> ""
      [] ev.op = "lend" ->
            IF ev.err THEN "learner-died"
            ELSE IF st.lfailed THEN IF ~ev.exc THEN "failure-unreported" ELSE ""
            ELSE IF Complete(c, st, ev) # "" THEN Complete(c, st, ev)
            ELSE IF c.nu > 0 /\ st.u = c.nu THEN IF ev.stop THEN "" ELSE "not-stopped-after-updates"
            ELSE IF ~st.lstop THEN "learner-ended-early"
            ELSE ""
      [] ev.op = "pend" ->
            IF ev.err THEN "poller-died"
            ELSE IF ~st.pstop /\ ~st.failed /\ ~st.soft THEN "poller-ended-early" ELSE ""
      [] ev.op = "aend" ->
            IF ev.err /\ ~st.failed /\ ~st.soft THEN "actor-died"
            ELSE ""
      [] ev.op = "final" ->
            IF ev.deadlock THEN "never-ends"
            ELSE IF ~st.lend \/ ~st.pend THEN "not-all-ended"
            ELSE IF st.busy # 0 THEN "buffer-operation-unfinished"
            ELSE IF st.failed THEN IF ev.exc THEN "" ELSE "failure-unreported"
            ELSE IF \E i \in As(c) : ev.flushed[i] /\ st.q[i] # << >> THEN "transition-lost"
            ELSE IF \E i \in As(c) : ev.flushed[i] /\ st.lastk[i] = "cut" THEN "episode-end-lost"
            ELSE IF ev.cum # st.app THEN "cumulative-steps"
            ELSE IF ev.wanted /\ c.nu > 0 /\ st.u # c.nu THEN "too-few-updates"
            ELSE ""
      [] OTHER -> "unknown-event"

Clause(c, st, ev) ==
    LET d == Drift(c, st, ev) IN IF d # "" THEN d ELSE Own(c, st, ev)

See(c, st, ev) ==
    [st EXCEPT !.m = ev.m, !.tg = ev.tg, !.sh = ev.sh, !.uc = ev.uc, !.exc = ev.exc,
               !.seen = @ \cup {ev.m},
               !.reload = @ \/ \E i \in As(c) : st.req[i].k = "load",
               !.req = [i \in As(c) |-> IF @[i].k = "none" THEN @[i]
                                        ELSE [@[i] EXCEPT !.seen = @ \cup {ev.m}]]]

Step(c, st0, ev) ==
    LET st == See(c, st0, ev) IN
    CASE ev.op = "obs" ->
           [st EXCEPT !.q[ev.w] = Append(@, [s |-> ev.s, a |-> ev.a, r |-> ev.r, nx |-> ev.nx, d |-> ev.d,
                                             cut |-> ev.reset]),
                      !.t[ev.w] = @ + 1]
      [] ev.op = "req" ->
           [st EXCEPT !.soft = @ \/ (ev.k = "load" /\ (IF ev.d \in 0..c.n THEN st.saved[ev.d] = << >> ELSE TRUE)),
                      !.req[ev.w] = [k |-> ev.k, d |-> ev.d, u |-> st.u, ap |-> st.app, seen |-> {ev.m}]]
      [] ev.op = "rep" ->
           [st EXCEPT !.req[ev.w] = NoReq,
                      !.saved = IF ev.k = "save" /\ ev.ok THEN [@ EXCEPT ![ev.w] = <<ev.sv, ev.st>>] ELSE @]
      [] ev.op = "bufin" ->
           CASE ev.k = "append" ->
                  LET h == st.q[ev.env][1] IN
                  [st EXCEPT !.busy = 1, !.q[ev.env] = Tail(@),
                             !.app = @ + (IF ev.fault THEN 0 ELSE 1),
                             !.failed = @ \/ ev.fault,
                             !.lastk[ev.env] = IF h.d THEN "done" ELSE IF h.cut THEN "cut" ELSE "open"]
             [] ev.k = "stop" -> [st EXCEPT !.busy = 1, !.lastk[ev.env] = "none", !.failed = @ \/ ev.fault]
             [] ev.k = "sample" ->
                  [st EXCEPT !.busy = 1, !.sampled = TRUE, !.post = FALSE, !.failed = @ \/ ev.fault,
                             !.lfailed = @ \/ ev.fault]
             [] OTHER -> [st EXCEPT !.busy = 1, !.failed = @ \/ ev.fault]
      [] ev.op = "bufout" -> [st EXCEPT !.busy = 0]
      [] ev.op = "update" ->
           [st EXCEPT !.u = @ + 1, !.m = ev.m2, !.sampled = FALSE, !.post = TRUE, !.seen = {ev.m2},
                      !.hook = 0, !.ohook = 0,
                      !.reload = \E i \in As(c) : st.req[i].k = "load",
                      !.req = [i \in As(c) |-> IF @[i].k = "none" THEN @[i]
                                               ELSE [@[i] EXCEPT !.seen = @ \cup {ev.m2}]]]
      [] ev.op = "hook" -> [st EXCEPT !.hook = 1, !.failed = @ \/ ev.fault]
      [] ev.op = "ohook" -> [st EXCEPT !.ohook = 1, !.failed = @ \/ ev.fault]
      [] ev.op = "fault" -> [st EXCEPT !.failed = TRUE, !.lfailed = TRUE]
      [] ev.op = "lstop" -> [st EXCEPT !.lstop = TRUE]
      [] ev.op = "pstop" -> [st EXCEPT !.pstop = TRUE]
      [] ev.op = "lend" -> [st EXCEPT !.lend = TRUE, !.post = FALSE]
      [] ev.op = "pend" -> [st EXCEPT !.pend = TRUE]
      [] OTHER -> st
=============================================================================
