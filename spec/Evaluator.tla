------------------------------ MODULE Evaluator ------------------------------
(***************************************************************************)
(* Periodic evaluation: when it happens, what it logs, which agent is kept. *)
(* c = [interval, offset, k (episodes per evaluation), succ (none: -1000000),*)
(*      best (save the best agent), hooks (number), ncols (statistics of the *)
(*      agent and the environment), evmax (length limit of evaluation        *)
(*      episodes, 0: none)]                                                 *)
(* Returns are in units of 1/8; means are compared through sums of k.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NONE == -1000000
InitState(c) ==
    [t |-> c.offset, epi |-> 0, prev |-> c.offset - (c.offset % c.interval), owe |-> FALSE,
     has |-> FALSE, max |-> 0, rets |-> << >>, lens |-> << >>, needBest |-> FALSE, hook |-> c.hooks,
     stop |-> FALSE, rows |-> << >>, ended |-> FALSE]

RECURSIVE Sum(_, _)
Sum(q, k) == IF k = 0 THEN 0 ELSE q[k] + Sum(q, k - 1)
MaxOf(q) == CHOOSE x \in { q[i] : i \in 1..Len(q) } : \A i \in 1..Len(q) : q[i] <= x
MinOf(q) == CHOOSE x \in { q[i] : i \in 1..Len(q) } : \A i \in 1..Len(q) : q[i] >= x
Small(q) == \A i \in 1..Len(q) : q[i] \in (0 - 2000)..2000
\* k (k - 1) times the variance of the sample; -1: not judged
VarOf(q) == LET k == Len(q) IN
    IF Small(q) THEN k * Sum([i \in 1..k |-> q[i] * q[i]], k) - Sum(q, k) * Sum(q, k) ELSE -1
Below(q, x) == Cardinality({ i \in 1..Len(q) : q[i] < x })
UpTo(q, x) == Cardinality({ i \in 1..Len(q) : q[i] <= x })
Nth(q, n) == CHOOSE x \in { q[i] : i \in 1..Len(q) } : Below(q, x) < n /\ n <= UpTo(q, x)
\* twice the median
Med2(q) == LET n == Len(q) IN Nth(q, (n + 1) \div 2) + Nth(q, (n \div 2) + 1)
Cut(c, n) == IF c.evmax > 0 /\ c.evmax < n THEN c.evmax ELSE n
Pending(c, s) ==
    IF s.owe THEN "evaluation-missed"
    ELSE IF s.needBest THEN "best-agent-not-saved"
    ELSE IF s.hook < c.hooks THEN "evaluation-hook-not-called" ELSE ""

Clause(c, s, ev) ==
  CASE ev.op = "train" ->   \* a training step, ev.point: evaluation may happen after it
        IF Pending(c, s) # "" THEN Pending(c, s)
        ELSE IF s.stop THEN "runs-on-after-success" ELSE ""
    [] ev.op = "evaluated" ->
        IF ~s.owe THEN "unexpected-evaluation"
        ELSE IF Len(ev.rets) # c.k THEN "wrong-number-of-evaluation-episodes"
        ELSE IF \E i \in 1..c.k : ev.lens[i] # Cut(c, ev.nats[i]) THEN "length-of-evaluation-episode" ELSE ""
    [] ev.op = "hook" ->
        IF s.hook >= c.hooks \/ ev.i # s.hook + 1 THEN "unexpected-evaluation-hook"
        ELSE IF ev.t # s.t THEN "evaluation-hook-step"
        ELSE IF ev.sum # Sum(s.rets, c.k) THEN "evaluation-hook-score"
        ELSE IF \/ ev.episodes # c.k \/ ev.med2 # Med2(s.rets) \/ ev.max # MaxOf(s.rets) \/ ev.min # MinOf(s.rets)
                \/ ev.lsum # Sum(s.lens, c.k) \/ ev.lmed2 # Med2(s.lens) \/ ev.lmax # MaxOf(s.lens) \/ ev.lmin # MinOf(s.lens)
             THEN "evaluation-hook-statistics"
        ELSE IF ev.stats # s.rows[Len(s.rows)].stats THEN "evaluation-hook-agent-statistics" ELSE ""
    [] ev.op = "best" ->
        IF ~c.best THEN "unwanted-best-agent"
        ELSE IF ~s.needBest THEN "best-agent-overwritten" ELSE ""
    [] ev.op = "returned" ->   \* what evaluate_if_necessary returned (direct use)
        IF Pending(c, s) # "" THEN Pending(c, s)
        ELSE IF ev.some # (Len(s.rows) > 0 /\ s.rows[Len(s.rows)].t = s.t /\ s.ended) THEN "wrong-return-value"
        ELSE IF ev.some /\ ev.sum # Sum(s.rets, c.k) THEN "wrong-return-value"
        ELSE IF ev.hasmax # s.has \/ (s.has /\ ev.max # s.max) THEN "wrong-best-score" ELSE ""
    [] ev.op = "final" ->
        IF Pending(c, s) # "" THEN Pending(c, s)
        ELSE IF Len(ev.rows) # Len(s.rows) THEN "score-log-rows"
        ELSE IF \E i \in 1..Len(s.rows) : ev.rows[i] # s.rows[i] THEN "score-log-contents"
        ELSE IF ev.header # 8 + c.ncols THEN "score-log-header" ELSE ""
    [] OTHER -> "unknown-event"

Step(c, s, ev) ==
  CASE ev.op = "train" ->
        [s EXCEPT !.t = ev.t, !.epi = ev.epi, !.owe = ev.point /\ ev.t >= s.prev + c.interval,
                  !.ended = FALSE]
    [] ev.op = "evaluated" ->
        LET sum == Sum(ev.rets, c.k)
            better == ~s.has \/ sum > s.max
            m == IF better THEN sum ELSE s.max
        IN [s EXCEPT !.owe = FALSE, !.prev = s.t - (s.t % c.interval), !.rets = ev.rets, !.lens = ev.lens,
                     !.has = TRUE, !.max = m, !.needBest = better /\ c.best, !.hook = 0,
                     !.ended = TRUE,
                     !.stop = c.succ # NONE /\ m >= c.succ * c.k,
                     !.rows = Append(@, [t |-> s.t, epi |-> s.epi, sum |-> sum, max |-> MaxOf(ev.rets), med2 |-> Med2(ev.rets), var |-> VarOf(ev.rets),
                                         min |-> MinOf(ev.rets), stats |-> ev.stats])]
    [] ev.op = "hook" -> [s EXCEPT !.hook = @ + 1]
    [] ev.op = "best" -> [s EXCEPT !.needBest = FALSE]
    [] OTHER -> s
=============================================================================
