----------------------------- MODULE EvaluatorMC -----------------------------
EXTENDS Evaluator, TLC, Json
CONSTANTS Interval, Offset, MaxT, Gen, Succ
c == [interval |-> Interval, offset |-> Offset, k |-> 1, succ |-> Succ, best |-> TRUE, hooks |-> 1, ncols |-> 0, evmax |-> 0]
VARIABLES s, seen, hist
Init == s = InitState(c) /\ seen = << >> /\ hist = << >>
Do(ev) == Clause(c, s, ev) = "" /\ s' = Step(c, s, ev)
Next ==
    \/ \E d \in 1..4, p \in (IF Gen THEN {TRUE} ELSE BOOLEAN) :
         /\ s.t + d <= MaxT
         /\ Do([op |-> "train", t |-> s.t + d, epi |-> 0, point |-> p])
         /\ hist' = (IF Gen THEN Append(hist, <<s.t + d, 0>>) ELSE << >>)
         /\ UNCHANGED seen
    \/ \E r \in 0..2 :
         /\ Do([op |-> "evaluated", rets |-> <<r>>, stats |-> << >>, lens |-> <<1>>, nats |-> <<1>>])
         /\ seen' = Append(seen, <<s.t, r>>)
         /\ hist' = IF Gen THEN Append(SubSeq(hist, 1, Len(hist) - 1), <<s.t, r>>) ELSE hist
    \/ s.rets # << >> /\ Do([op |-> "hook", i |-> s.hook + 1, t |-> s.t, sum |-> Sum(s.rets, 1), episodes |-> 1, med2 |-> 2 * s.rets[1],
                               max |-> s.rets[1], min |-> s.rets[1], lsum |-> 1, lmed2 |-> 2, lmax |-> 1, lmin |-> 1, stats |-> << >>]) /\ UNCHANGED <<seen, hist>>
    \/ Do([op |-> "best"]) /\ UNCHANGED <<seen, hist>>
Spec == Init /\ [][Next]_<<s, seen, hist>>
\* at most one evaluation per interval; the interval of an evaluation is new
OncePerInterval ==
    \A i \in 1..Len(seen) :
       /\ seen[i][1] \div Interval > Offset \div Interval
       /\ i > 1 => seen[i][1] \div Interval > seen[i-1][1] \div Interval
BestIsMax == Len(seen) > 0 => s.max = MaxOf([i \in 1..Len(seen) |-> seen[i][2]])
StopRight == s.stop <=> \E i \in 1..Len(seen) : seen[i][2] >= Succ
GenInv == IF Gen /\ (s.t >= MaxT - 1 /\ ~s.owe) THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
=============================================================================
