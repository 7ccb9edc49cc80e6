------------------------------ MODULE Wrappers ------------------------------
(***************************************************************************)
(* Environment wrappers as automata between their user and the wrapped      *)
(* ("base") environment.  A user call (reset / step a) makes the wrapper    *)
(* issue base calls and then return.  For every kind of wrapper             *)
(*    May(c, s)      the base calls it may issue now (<<>>: it may return)  *)
(*    Result(c, s)   what it then returns.                                  *)
(* c = [kind, p: integer parameter, q: second parameter].                   *)
(* Common rules: the base environment is never stepped after its episode    *)
(* ended (terminal or asking for a reset), and a reset returns a running    *)
(* episode.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

InitState(c) ==
    [over |-> TRUE,        \* no running base episode
     n |-> 0,              \* steps of the user-visible episode
     lives |-> 0,          \* lives after the previous call
     call |-> [what |-> "none", a |-> 0],
     pre |-> <<>>,         \* base calls of the current user call, with outcomes
     open |-> FALSE,       \* user episode with steps not yet recorded (monitor)
     cur |-> [len |-> 0, r |-> 0], eps |-> <<>>]

Steps(s) == SelectSeq(s.pre, LAMBDA b : b.t = "bstep")
LastB(s) == s.pre[Len(s.pre)]
Ended(b) == b.t = "bstep" /\ (b.done \/ b.need)
RECURSIVE SumR(_, _)
SumR(q, k) == IF k = 0 THEN 0 ELSE q[k].r + SumR(q, k - 1)
Max2(a, b) == IF a > b THEN a ELSE b
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN 0 - 1 ELSE 0
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

Reset == [t |-> "breset", a |-> 0]
Do(a) == [t |-> "bstep", a |-> a]
Return == [t |-> "ret", a |-> 0]

\* the action which reaches the base environment for the user's action a
BaseActions(c, a) ==
    CASE c.kind = "normalize" -> {c.p * 16 + (a + 8) * (c.q - c.p)}   \* p, q, a in eighths
      [] c.kind = "afilter" -> {a + c.p}
      [] c.kind = "randomize" -> 0..(c.q - 1)
      [] OTHER -> {a}

PlainReset(s) == IF s.pre = <<>> THEN {Reset} ELSE {Return}
PlainStep(c, s) == IF s.pre = <<>> THEN { Do(a) : a \in BaseActions(c, s.call.a) } ELSE {Return}

May(c, s) ==
  IF s.call.what = "none" THEN {}
  ELSE IF s.call.what = "step"
  THEN CASE c.kind \in {"skip", "repeat"} ->
             IF s.pre = <<>> THEN {Do(s.call.a)}
             ELSE IF Ended(LastB(s)) \/ Len(s.pre) = c.p THEN {Return} ELSE {Do(s.call.a)}
         [] c.kind = "chain" ->
             IF s.pre = <<>> THEN {Do(s.call.a)}
             ELSE IF Ended(LastB(s)) \/ Len(s.pre) = 4 THEN {Return} ELSE {Do(s.call.a)}
         [] OTHER -> PlainStep(c, s)
  ELSE CASE c.kind = "noop" ->
             IF s.pre = <<>> THEN {Reset}
             ELSE IF Ended(LastB(s)) THEN {Reset}
             ELSE IF c.q > 0      \* number of no-ops fixed
             THEN (IF Len(Steps(s)) < c.q THEN {Do(0)} ELSE {Return})
             ELSE (IF Len(Steps(s)) < c.p THEN {Do(0)} ELSE {})
                  \cup (IF Len(Steps(s)) >= 1 THEN {Return} ELSE {})
         [] c.kind = "fire" ->
             IF s.pre = <<>> \/ Ended(LastB(s)) THEN {Reset}
             ELSE IF Steps(s) = <<>> THEN {Do(1)}
             ELSE IF Len(Steps(s)) = 1 THEN {Do(2)} ELSE {Return}
         [] c.kind = "life" ->
             IF s.pre = <<>> THEN (IF s.over THEN {Reset} ELSE IF s.n = 0 THEN {Reset, Do(0)} ELSE {Do(0)})
             ELSE IF Ended(LastB(s)) THEN {Reset} ELSE {Return}
         [] c.kind = "chain" ->     \* any sequence which respects the common rules
             (IF s.over THEN {Reset} ELSE {Reset, Do(0), Do(1), Do(2)} \cup (IF s.pre = <<>> THEN {} ELSE {Return}))
         [] OTHER -> PlainReset(s)

\* "any": the kind leaves this component open in this situation
Obs(c, s) ==
    LET q == s.pre  n == Len(q) IN
    CASE c.kind = "skip" /\ s.call.what = "step" ->
          IF LastB(s).done THEN {}         \* the frame of a terminal step does not matter
          ELSE {IF n >= 2 THEN Max2(q[n].obs, q[n - 1].obs) ELSE q[n].obs}
      [] c.kind = "flicker" -> {0, q[n].obs}
      [] c.kind = "chain" -> {}
      [] OTHER -> {q[n].obs}
Reward(c, s) ==
    LET r == SumR(s.pre, Len(s.pre)) IN
    CASE c.kind \in {"clip", "chain"} -> Sign(r)
      [] c.kind = "scale" -> r * c.p
      [] c.kind = "rfilter" -> r + c.p
      [] c.kind = "rclip" -> Clip(r, 0 - c.p, c.q)
      [] OTHER -> r
LifeLost(s) == LastB(s).lives < s.lives /\ LastB(s).lives > 0
Done(c, s) ==
    CASE c.kind \in {"life", "chain"} -> LastB(s).done \/ LifeLost(s)
      [] c.kind = "tslimit" -> LastB(s).done \/ s.n + 1 >= c.p
      [] OTHER -> LastB(s).done
Need(c, s) ==
    CASE c.kind = "timelimit" -> LastB(s).need \/ s.n + 1 >= c.p
      [] OTHER -> LastB(s).need

Clause(c, s, ev) ==
  CASE ev.op = "call" -> IF s.call.what # "none" THEN "nested-call" ELSE ""
    [] ev.op \in {"breset", "bstep"} ->
        IF ev.op = "bstep" /\ s.over THEN "stepped-after-episode-end"
        ELSE IF [t |-> ev.op, a |-> ev.a] \notin May(c, s) THEN "wrong-call-to-wrapped-environment"
        ELSE ""
    [] ev.op = "ret" ->
        IF Return \notin May(c, s) THEN "returned-too-early"
        ELSE IF Obs(c, s) # {} /\ ev.obs \notin Obs(c, s) THEN "wrong-observation"
        ELSE IF s.call.what = "reset" THEN (IF s.over THEN "reset-returns-ended-episode" ELSE "")
        ELSE IF ev.r # Reward(c, s) THEN "wrong-reward"
        ELSE IF ev.done # Done(c, s) THEN "wrong-terminal-flag"
        ELSE IF ev.need # Need(c, s) THEN "wrong-reset-request" ELSE ""
    [] ev.op = "stats" ->
        IF ev.eps # (IF s.open THEN Append(s.eps, <<s.cur.len, s.cur.r>>) ELSE s.eps) THEN "wrong-episode-record" ELSE ""
    [] ev.op = "counts" ->   \* how many of n actions were replaced, by which
        IF (ev.k * 100 - ev.n * ev.pct) * (ev.k * 100 - ev.n * ev.pct)
              > 36 * ev.n * ev.pct * (100 - ev.pct) THEN "wrong-replacement-rate"
        ELSE IF \E i \in 1..Len(ev.hist) : 2 * ev.hist[i] * Len(ev.hist) < ev.k - 100
                                         \/ ev.hist[i] * Len(ev.hist) > 2 * ev.k + 100 THEN "biased-replacement"
        ELSE ""
    [] OTHER -> "unknown-event"

Step(c, s, ev) ==
  CASE ev.op = "call" -> [s EXCEPT !.call = [what |-> ev.what, a |-> ev.a], !.pre = <<>>]
    [] ev.op = "breset" ->
        [s EXCEPT !.over = FALSE,
                  !.pre = Append(@, [t |-> "breset", obs |-> ev.obs, r |-> 0, done |-> FALSE,
                                     need |-> FALSE, lives |-> ev.lives])]
    [] ev.op = "bstep" ->
        [s EXCEPT !.over = ev.done \/ ev.need,
                  !.pre = Append(@, [t |-> "bstep", obs |-> ev.obs, r |-> ev.r, done |-> ev.done,
                                     need |-> ev.need, lives |-> ev.lives])]
    [] ev.op = "ret" ->
        LET step == s.call.what = "step"
            cur == [len |-> s.cur.len + 1, r |-> s.cur.r + SumR(s.pre, Len(s.pre))]
            fin == step /\ LastB(s).done
        IN [s EXCEPT !.call = [what |-> "none", a |-> 0],
                     !.lives = LastB(s).lives,
                     !.n = IF step THEN @ + 1 ELSE 0,
                     !.eps = IF fin THEN Append(@, <<cur.len, cur.r>>)
                             ELSE IF ~step /\ s.open THEN Append(@, <<s.cur.len, s.cur.r>>) ELSE @,
                     !.open = step /\ ~fin,
                     !.cur = IF step THEN cur ELSE [len |-> 0, r |-> 0]]
    [] OTHER -> s
=============================================================================
