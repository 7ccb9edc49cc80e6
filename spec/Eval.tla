-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* Evaluation rollouts over n environments (n = 1: also the serial loop).   *)
(* c = [n, mode ("episodes"|"steps"), k (how many), maxlen (0: none)]       *)
(* Episodes are numbered in the order in which they start.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Rep(c, x) == [i \in 1..c.n |-> x]
InitState(c) ==
    [pc |-> "init", obs |-> Rep(c, 0), act |-> Rep(c, 0),
     out |-> [obs |-> Rep(c, 0), r |-> Rep(c, 0), done |-> Rep(c, FALSE), need |-> Rep(c, FALSE)],
     idx |-> [i \in 1..c.n |-> i], next |-> c.n + 1,
     ret |-> Rep(c, 0), len |-> Rep(c, 0), over |-> Rep(c, FALSE),
     fin |-> {},   \* complete episodes [k, r, l]
     told |-> [exact |-> TRUE, all |-> FALSE]]

Done(s, k) == \E e \in s.fin : e.k = k
Fin(s, k) == CHOOSE e \in s.fin : e.k = k
RECURSIVE FirstOpen(_, _)
FirstOpen(s, k) == IF Done(s, k) THEN FirstOpen(s, k + 1) ELSE k
RECURSIVE Total(_, _)
Total(s, k) == IF k = 0 THEN 0 ELSE Fin(s, k).l + Total(s, k - 1)
SlotOf(c, s, k) == CHOOSE i \in 1..c.n : s.idx[i] = k
\* complete episodes 1..Whole lie within the allotted steps
RECURSIVE Whole(_, _, _)
Whole(c, s, k) == IF Done(s, k + 1) /\ Total(s, k + 1) <= c.k THEN Whole(c, s, k + 1) ELSE k

Determined(c, s) ==
    LET o == FirstOpen(s, 1) IN
    IF c.mode = "episodes" THEN o > c.k
    ELSE Total(s, o - 1) >= c.k \/ Total(s, o - 1) + s.len[SlotOf(c, s, o)] >= c.k
Expected(c, s) ==
    IF c.mode = "episodes" THEN [j \in 1..c.k |-> <<Fin(s, j).r, Fin(s, j).l>>]
    ELSE IF FirstOpen(s, 1) = 1 THEN << <<s.ret[SlotOf(c, s, 1)], s.len[SlotOf(c, s, 1)]>> >>
    ELSE [j \in 1..Whole(c, s, 0) |-> <<Fin(s, j).r, Fin(s, j).l>>]

ResetFlags(c, s) == [i \in 1..c.n |-> (c.maxlen > 0 /\ s.len[i] = c.maxlen) \/ s.out.need[i]]

RECURSIVE Sum(_, _)
Sum(q, k) == IF k = 0 THEN 0 ELSE q[k] + Sum(q, k - 1)
RECURSIVE SumSq(_, _)
SumSq(q, k) == IF k = 0 THEN 0 ELSE q[k] * q[k] + SumSq(q, k - 1)
Cnt(q, P(_)) == Cardinality({ i \in 1..Len(q) : P(q[i]) })
\* the statistics reported for the returns q, scaled to integers:
\* mean*n, 2*median, max, min, stdev^2*n*(n-1)
StatsOK(q, ev) ==
    LET n == Len(q) IN
    /\ ev.episodes = n /\ ev.sum = Sum(q, n)
    /\ \E i \in 1..n : q[i] = ev.max /\ \A j \in 1..n : q[j] <= ev.max
    /\ \E i \in 1..n : q[i] = ev.min /\ \A j \in 1..n : q[j] >= ev.min
    /\ \E a, b \in 1..n :
         /\ q[a] + q[b] = ev.med2 /\ q[a] <= q[b]
         /\ Cnt(q, LAMBDA x : x < q[a]) <= (n - 1) \div 2
         /\ Cnt(q, LAMBDA x : x <= q[a]) >= (n + 1) \div 2
         /\ Cnt(q, LAMBDA x : x > q[b]) <= (n - 1) \div 2
         /\ Cnt(q, LAMBDA x : x >= q[b]) >= (n + 1) \div 2
    /\ n >= 2 => ev.var = n * SumSq(q, n) - Sum(q, n) * Sum(q, n)
    /\ n = 1 => ev.var = 0

Clause(c, s, ev) ==
  CASE ev.op = "reset" ->
        IF s.pc = "init" THEN (IF \E i \in 1..c.n : ev.mask[i] THEN "first-reset-masked" ELSE "")
        ELSE IF s.pc # "between" THEN "unexpected-reset"
        ELSE IF \E i \in 1..c.n : ev.mask[i] = s.over[i] THEN "wrong-reset-mask" ELSE ""
    [] ev.op = "act" ->
        IF s.pc \notin {"ready", "between"} THEN "unexpected-act"
        ELSE IF ~ev.evalmode THEN "not-in-evaluation-mode"
        ELSE IF \E i \in 1..c.n : s.over[i] THEN "no-reset-after-episode-end"
        ELSE IF ~s.told.exact THEN "wrong-reset-flag"
        ELSE IF ev.obs # s.obs THEN "act-on-wrong-observation" ELSE ""
    [] ev.op = "step" ->
        IF s.pc # "acted" THEN "unexpected-step"
        ELSE IF ev.a # s.act THEN "wrong-action-executed" ELSE ""
    [] ev.op = "observe" ->
        IF s.pc # "stepped" THEN "unexpected-observe"
        ELSE IF ~ev.evalmode THEN "not-in-evaluation-mode"
        ELSE IF <<ev.obs, ev.r, ev.done>> # <<s.out.obs, s.out.r, s.out.done>> THEN "wrong-outcome-observed"
        ELSE ""
    [] ev.op = "result" ->
        IF s.pc # "between" \/ ~Determined(c, s) THEN "returned-too-early"
        ELSE IF ev.res # Expected(c, s) THEN "wrong-episodes-scored"
        ELSE IF ~s.told.all THEN "agent-left-inside-an-episode"
        ELSE IF ~ev.restored THEN "mode-not-restored" ELSE ""
    [] ev.op = "stats" ->
        IF s.pc # "between" \/ ~Determined(c, s) THEN "returned-too-early"
        ELSE LET e == Expected(c, s)  q == [j \in 1..Len(e) |-> e[j][1]]  l == [j \in 1..Len(e) |-> e[j][2]] IN
             IF ~StatsOK(q, ev.r) THEN "wrong-statistics"
             ELSE IF ~StatsOK(l, ev.l) THEN "wrong-length-statistics" ELSE ""
    [] OTHER -> "unknown-event"

\* episode bookkeeping when slots end, in slot order
RECURSIVE Close(_, _, _)
Close(c, s, i) ==
    IF i > c.n THEN s
    ELSE IF s.out.done[i] \/ ResetFlags(c, s)[i]
    THEN Close(c, [s EXCEPT !.fin = @ \cup {[k |-> s.idx[i], r |-> s.ret[i], l |-> s.len[i]]},
                            !.idx[i] = s.next, !.next = @ + 1, !.over[i] = TRUE], i + 1)
    ELSE Close(c, s, i + 1)

Step(c, s, ev) ==
  CASE ev.op = "reset" ->
        [s EXCEPT !.pc = IF @ = "init" THEN "ready" ELSE @, !.obs = ev.obs,
                  !.over = [i \in 1..c.n |-> @[i] /\ ev.mask[i]]]
    [] ev.op = "act" -> [s EXCEPT !.pc = "acted", !.act = ev.a]
    [] ev.op = "step" ->
        [s EXCEPT !.pc = "stepped", !.obs = ev.obs,
                  !.ret = [i \in 1..c.n |-> @[i] + ev.r[i]], !.len = [i \in 1..c.n |-> @[i] + 1],
                  !.out = [obs |-> ev.obs, r |-> ev.r, done |-> ev.done, need |-> ev.need]]
    [] ev.op = "observe" ->
        LET rf == ResetFlags(c, s)
            s1 == Close(c, s, 1)
        IN [s1 EXCEPT !.pc = "between",
               !.ret = [i \in 1..c.n |-> IF s1.over[i] THEN 0 ELSE @[i]],
               !.len = [i \in 1..c.n |-> IF s1.over[i] THEN 0 ELSE @[i]],
               !.told = [exact |-> \A i \in 1..c.n : s.out.done[i] \/ ev.reset[i] = rf[i],
                         all |-> \A i \in 1..c.n : s.out.done[i] \/ ev.reset[i]]]
    [] OTHER -> s
=============================================================================
