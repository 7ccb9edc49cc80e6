-------------------------- MODULE EpisodicBufferMC --------------------------
EXTENDS EpisodicBuffer, TLC, Json
CONSTANTS Cap, Envs, MaxT, Depth
c == [cap |-> Cap, envs |-> Envs]
VARIABLES s, n, done, hist
vars == <<s, n, done, hist>>
Ids == 0..(Envs - 1)
Init == s = InitState(c) /\ n = 0 /\ done = << >> /\ hist = << >>
H(h) == hist' = IF Depth > 0 THEN Append(hist, h) ELSE hist
Observe(e, term) ==
    /\ n < MaxT /\ n' = n + 1
    /\ LET t == [id |-> n + 1, env |-> e, term |-> term]
       IN /\ s' = DoAppend(c, s, e, t)
          /\ done' = IF term THEN Append(done, Append(s.cur[e], t)) ELSE done
    /\ H([op |-> "append", env |-> e, term |-> term])
Stop(e) == /\ s' = DoStop(c, s, e)
           /\ done' = IF s.cur[e] = << >> THEN done ELSE Append(done, s.cur[e])
           /\ UNCHANGED n /\ H([op |-> "stop", env |-> e])
Next == \E e \in Ids : Stop(e) \/ \E b \in BOOLEAN : Observe(e, b)
Spec == Init /\ [][Next]_vars

\* the stored episodes are the longest suffix of the finished ones that fits
WholeOldestDropped ==
    /\ IsSuffix(s.eps, done)
    /\ Cap > 0 => Total(s.eps) <= Cap
MaximalKept ==      \* nothing is dropped that never had to be: an evicted
    Cap = 0 => s.eps = done
OneEnvPerEpisode == \A i \in 1..Len(done) : \A j \in 1..Len(done[i]) :
    /\ done[i][j].env = done[i][1].env
    /\ j < Len(done[i]) => done[i][j].id < done[i][j + 1].id /\ ~done[i][j].term
EveryTransitionOnce ==
    Total(done) + Total([i \in 1..Envs |-> s.cur[i - 1]]) = n
MCView == <<s, n, done>>
GenConstraint == Len(hist) < Depth
GenInv == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
=============================================================================
