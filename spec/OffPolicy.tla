------------------------------ MODULE OffPolicy ------------------------------
(***************************************************************************)
(* A replay agent (DQN and variants, DDPG, TD3, SAC) between its user (act  *)
(* and observe, in training or evaluation mode) and its collaborators       *)
(* (replay buffer, optimizers, explorer).                                   *)
(* c = [n        number of environments,                                    *)
(*      fam      "dqn" | "ddpg" | "td3" | "sac",                            *)
(*      start, batch, ui, ntimes    update schedule,                        *)
(*      tui, soft, num, den         target synchronization (tau = num/den), *)
(*      delay    policy update delay (td3),                                 *)
(*      episodic updates on whole episodes, burnin]                         *)
(* m, tg: parameters of the online and target networks, fixed point.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Opts(c) == CASE c.fam = "dqn" -> {"q"}
             [] c.fam = "ddpg" -> {"q", "policy"}
             [] OTHER -> {"q1", "q2", "policy"}
Critic(c) == CASE c.fam = "dqn" -> "q" [] c.fam = "ddpg" -> "q" [] OTHER -> "q1"

InitState(c) ==
    [pc |-> "idle", mode |-> "train",
     t |-> 0,                 \* training steps observed
     k |-> 0,                 \* environments of the running observe processed
     obs |-> <<>>, a |-> <<>>, \* last training act
     out |-> [obs |-> <<>>, r |-> <<>>, done |-> <<>>, reset |-> <<>>],
     closed |-> TRUE,         \* the k-th environment's episode was closed
     blen |-> 0, neps |-> 0,  \* replay buffer
     ups |-> 0,               \* updates at the current step
     opt |-> {},              \* optimizers stepped in the running update
     inup |-> FALSE,
     nup |-> 0,               \* updates (critic) ever
     npol |-> 0,
     synct |-> 0,             \* steps up to which synchronization is accounted for
     due |-> 0,               \* soft synchronizations after updates not yet accounted for
     m |-> <<>>, tg |-> <<>>,
     ints |-> {}]             \* positions of integer entries, which are copied

Abs(x) == IF x < 0 THEN 0 - x ELSE x

\* --- schedule -----------------------------------------------------------
Now(s) == s.t + s.k
UpdateDue(c, s) ==
    /\ s.k > 0 /\ s.blen >= c.start
    /\ (c.episodic => s.neps >= c.batch)
    /\ Now(s) % c.ui = 0
Owed(c, s) == IF UpdateDue(c, s) THEN c.ntimes - s.ups ELSE 0
PolicyDue(c, n) == c.fam # "td3" \/ n % c.delay = 0      \* in the n-th critic update
Expected(c, s) == IF PolicyDue(c, s.nup + 1) THEN Opts(c) ELSE Opts(c) \ {"policy"}
UpdateComplete(c, s) == ~s.inup \/ s.opt = Expected(c, s)
\* the running update counts as finished when something else happens
Settle(c, s) ==
    IF ~s.inup THEN s
    ELSE [s EXCEPT !.inup = FALSE, !.opt = {}, !.nup = @ + 1,
                   !.npol = IF PolicyDue(c, s.nup + 1) THEN @ + 1 ELSE @,
                   !.due = IF c.fam \in {"td3", "sac"} /\ PolicyDue(c, s.nup + 1) THEN @ + 1 ELSE @]

\* --- target network -----------------------------------------------------
Multiples(lo, hi, d) == (hi \div d) - (lo \div d)     \* in (lo, hi]
SyncsDue(c, s) == IF c.fam \in {"dqn", "ddpg"} THEN Multiples(s.synct, Now(s), c.tui) ELSE s.due
RECURSIVE Soft(_, _, _, _)
Soft(c, m, x, j) ==      \* one entry
    IF j = 0 THEN x
    ELSE Soft(c, m, x + ((c.num * (m - x) * 2 + c.den) \div (2 * c.den)), j - 1)
TargetOK(c, s, tg) ==
    LET j == SyncsDue(c, s) IN
    IF j = 0 THEN tg = s.tg
    ELSE IF ~c.soft THEN tg = s.m
    ELSE /\ Len(tg) = Len(s.tg)
         /\ \A i \in 1..Len(tg) :
              IF i \in s.ints THEN tg[i] = s.m[i]
              ELSE Abs(tg[i] - Soft(c, s.m[i], s.tg[i], j)) <= 3 + j

\* what has to be finished for environment k before anything else happens
Finished(c, s) ==
    IF s.k > 0 /\ ~s.closed THEN "cut-episode-not-closed"
    ELSE IF ~UpdateComplete(c, s) THEN "incomplete-update"
    ELSE IF Owed(c, s) > 0 THEN "missing-update" ELSE ""

Clause(c, s, ev) ==
  CASE ev.op = "start" ->
        IF ev.tg # ev.m THEN "target-differs-at-construction" ELSE ""
    [] ev.op = "mode" -> ""
    [] ev.op = "restored" -> IF ev.ok THEN "" ELSE "mode-not-restored"
    [] ev.op = "act" ->
        IF s.pc # "idle" /\ s.mode = "train" THEN "unexpected-act"
        ELSE IF s.mode = "train" /\ c.burnin /\ (ev.burnt # (IF s.npol = 0 THEN c.n ELSE 0)) THEN "wrong-burn-in"
        ELSE IF s.mode = "eval" /\ (ev.explored # <<>> \/ ev.burnt # 0) THEN "exploration-in-evaluation"
        ELSE IF \E x \in 1..Len(ev.explored) : ev.explored[x] # s.t THEN "wrong-exploration-step"
        ELSE IF ev.m # s.m \/ ev.tg # s.tg THEN "acting-changed-the-networks"
        ELSE ""
    [] ev.op = "observe" -> ""
    [] ev.op = "append" ->
        LET s1 == Settle(c, s) IN
        IF s.mode = "eval" THEN "stored-in-evaluation"
        ELSE IF s.pc # "observing" \/ s.k >= c.n THEN "unexpected-append"
        ELSE IF Finished(c, s) # "" THEN Finished(c, s)
        ELSE IF ev.env # s.k THEN "stored-under-wrong-environment"
        ELSE IF ev.state # s.obs[s.k + 1] THEN "wrong-state-stored"
        ELSE IF ev.a # s.a[s.k + 1] THEN "wrong-action-stored"
        ELSE IF ev.r # s.out.r[s.k + 1] THEN "wrong-reward-stored"
        ELSE IF ev.next # s.out.obs[s.k + 1] THEN "wrong-next-state-stored"
        ELSE IF ev.term # s.out.done[s.k + 1] THEN "wrong-terminal-flag-stored"
        ELSE ""
    [] ev.op = "stop" ->
        IF s.mode = "eval" THEN "stored-in-evaluation"
        ELSE IF s.pc # "observing" \/ ev.env # s.k - 1 THEN "unexpected-episode-end"
        ELSE IF ~(s.out.done[s.k] \/ s.out.reset[s.k]) THEN "unexpected-episode-end"
        ELSE ""
    [] ev.op = "sample" ->
        LET s1 == Settle(c, s) IN
        IF s.mode = "eval" THEN "update-in-evaluation"
        ELSE IF s.pc # "observing" THEN "unexpected-update"
        ELSE IF ~UpdateComplete(c, s) THEN "incomplete-update"
        ELSE IF s.k > 0 /\ ~s.closed THEN "cut-episode-not-closed"
        ELSE IF Owed(c, s) <= 0 THEN "unscheduled-update"
        ELSE IF ev.size # c.batch THEN "wrong-batch-size"
        ELSE IF ev.m # s.m THEN "networks-changed-outside-update"
        ELSE IF ~TargetOK(c, s1, ev.tg) THEN "wrong-target-network"
        ELSE ""
    [] ev.op = "opt" ->
        IF s.mode = "eval" THEN "update-in-evaluation"
        ELSE IF ~s.inup THEN "update-without-batch"
        ELSE IF ev.name \in s.opt THEN "optimizer-stepped-twice"
        ELSE IF ev.name \notin Expected(c, s) THEN "unscheduled-policy-update"
        ELSE IF \E x \in 1..Len(ev.changed) : ev.changed[x] # ev.name THEN "update-changed-another-network"
        ELSE ""
    [] ev.op = "end" ->
        LET s1 == Settle(c, s) IN
        IF s.mode = "eval"
        THEN (IF ev.m # s.m \/ ev.tg # s.tg THEN "evaluation-changed-the-networks" ELSE "")
        ELSE IF s.k # c.n THEN "transition-not-stored"
        ELSE IF Finished(c, s) # "" THEN Finished(c, s)
        ELSE IF ev.m # s.m THEN "networks-changed-outside-update"
        ELSE IF ~TargetOK(c, s1, ev.tg) THEN "wrong-target-network"
        ELSE ""
    [] OTHER -> "unknown-event"

Checked(c, s, ev) == [s EXCEPT !.tg = ev.tg, !.synct = Now(s), !.due = 0]

Step(c, s, ev) ==
  CASE ev.op = "start" -> [s EXCEPT !.m = ev.m, !.tg = ev.tg, !.ints = { ev.ints[i] : i \in 1..Len(ev.ints) }]
    [] ev.op = "mode" -> [s EXCEPT !.mode = ev.mode]
    [] ev.op = "act" -> IF s.mode = "eval" THEN s
                        ELSE [s EXCEPT !.pc = "acted", !.obs = ev.obs, !.a = ev.a]
    [] ev.op = "observe" ->
        IF s.mode = "eval" THEN s
        ELSE [s EXCEPT !.pc = "observing", !.k = 0, !.ups = 0, !.closed = TRUE,
                  !.out = [obs |-> ev.obs, r |-> ev.r, done |-> ev.done, reset |-> ev.reset]]
    [] ev.op = "append" ->
        LET s1 == Settle(c, s) IN
        [s1 EXCEPT !.k = @ + 1, !.ups = 0, !.blen = ev.blen, !.neps = ev.neps,
                   !.closed = s.out.done[s.k + 1] \/ ~s.out.reset[s.k + 1]]
    [] ev.op = "stop" -> [s EXCEPT !.closed = TRUE, !.blen = ev.blen, !.neps = ev.neps]
    [] ev.op = "sample" ->
        LET s1 == Checked(c, Settle(c, s), ev) IN
        [s1 EXCEPT !.inup = TRUE, !.opt = {}, !.ups = @ + 1]
    [] ev.op = "opt" -> [s EXCEPT !.opt = @ \cup {ev.name}, !.m = ev.m]
    [] ev.op = "end" ->
        IF s.mode = "eval" THEN s
        ELSE LET s1 == Checked(c, Settle(c, s), ev) IN
             [s1 EXCEPT !.t = @ + c.n, !.k = 0, !.ups = 0, !.pc = "idle"]
    [] OTHER -> s
=============================================================================
