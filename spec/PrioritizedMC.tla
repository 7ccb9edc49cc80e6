---------------------------- MODULE PrioritizedMC ----------------------------
EXTENDS Prioritized, TLC, Json
CONSTANTS Cap, MaxV, Prios, MaxDraw, Depth
c == [cap |-> Cap, p0 |-> 2, u |-> 0]
VARIABLES s, n, hist, everp
vars == <<s, n, hist, everp>>
H(h) == hist' = IF Depth > 0 THEN Append(hist, h) ELSE hist
Init == s = InitState(c) /\ n = 0 /\ hist = << >> /\ everp = {2}

Put == /\ n < MaxV /\ n' = n + 1 /\ s' = DoAppend(c, s, n + 1, 0)
       /\ UNCHANGED everp /\ H([op |-> "append", p |-> 0])
Pop == /\ s.items # << >> /\ s' = PopFront(s) /\ UNCHANGED <<n, everp>> /\ H([op |-> "pop"])
Vals == { s.items[i].v : i \in 1..Len(s.items) }
Draw(k) == /\ ~s.wait /\ k <= Len(s.items)
           /\ \E S \in { X \in SUBSET Vals : Cardinality(X) = k } :
                 s' = DoSample(c, s, SetToSortSeq(S, <))
           /\ UNCHANGED <<n, everp>> /\ H([op |-> "sample", k |-> k])
Update == /\ s.wait
          /\ \E ps \in [1..Len(s.samp) -> Prios] :
                /\ s' = DoSet(c, s, ps)
                /\ everp' = everp \cup { ps[k] : k \in { j \in 1..Len(s.samp) : Has(s, s.samp[j]) } }
                /\ H([op |-> "set", ps |-> ps])
          /\ UNCHANGED n
Next == Put \/ Pop \/ (\E k \in 1..MaxDraw : Draw(k)) \/ Update
Spec == Init /\ [][Next]_vars

Positive == \A i \in 1..Len(s.items) : s.items[i].p > 0
MaxIsMax == \A p \in everp : p <= s.maxp /\ s.maxp \in everp
Fifo == \A i \in 1..(Len(s.items) - 1) : s.items[i].v < s.items[i + 1].v
Bound == Cap > 0 => Len(s.items) <= Cap
\* probabilities of the stored items sum to one
ProbSum ==
    s.items # << >> =>
      LET F[i \in 0..Len(s.items)] ==
            IF i = 0 THEN 0 ELSE F[i - 1] + ProbNum(c, s, s.items[i].p)
      IN F[Len(s.items)] = ProbDen(c, s)
\* only drawn items change priority, and new ones start at the maximum
OnlySampledChange ==
    [][\A i \in 1..Len(s'.items) :
          LET v == s'.items[i].v
          IN IF Has(s, v)
             THEN (s'.items[i].p # POf(s, v) => \E k \in 1..Len(s.samp) : s.samp[k] = v)
             ELSE s'.items[i].p = s.maxp]_vars
MCView == <<[items |-> s.items, maxp |-> s.maxp, samp |-> s.samp, wait |-> s.wait], n, everp>>
GenConstraint == Len(hist) < Depth
GenInv == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
=============================================================================
