------------------------------- MODULE QueueMC -------------------------------
EXTENDS Queue, TLC, Json
CONSTANTS MaxLen, Depth, Ext
VARIABLES q, n, hist, popped
vars == <<q, n, hist, popped>>
Ml == IF MaxLen = 99 THEN -1 ELSE MaxLen

Init == q = << >> /\ n = 0 /\ hist = << >> /\ popped = << >>
H(h) == hist' = Append(hist, h)
Fresh(k) == [i \in 1..k |-> n + i]

AppendOp == q' = QAppend(Ml, q, n + 1) /\ n' = n + 1 /\ H([op |-> "append"]) /\ UNCHANGED popped
ExtendOp(k) == q' = QExtend(Ml, q, Fresh(k)) /\ n' = n + k /\ H([op |-> "extend", k |-> k])
               /\ UNCHANGED popped
PopOp == q' = QPop(q) /\ n' = n /\ H([op |-> "pop"])
         /\ popped' = IF q = << >> THEN popped ELSE Append(popped, Head(q))
SetOp(i) == q' = QSet(q, i, n + 1) /\ n' = n + 1 /\ H([op |-> "set", i |-> i]) /\ UNCHANGED popped
Next == AppendOp \/ PopOp \/ (\E k \in Ext : ExtendOp(k)) \/ (\E i \in {0, -1, 1} : SetOp(i))
Spec == Init /\ [][Next]_vars

Bound == Ml >= 0 => Len(q) <= Ml
NegIndex == \A i \in 1..Len(q) : Pos(q, i - 1) = i /\ Pos(q, -i) = Len(q) - i + 1
OutOfRange == Pos(q, Len(q)) = 0 /\ Pos(q, -Len(q) - 1) = 0
\* without assignment the queue holds increasing (that is, insertion ordered)
\* items, and everything popped is older than everything held
NoSet == \A i \in 1..Len(hist) : hist[i].op # "set"
Fifo == NoSet => /\ \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
                 /\ \A i \in 1..Len(popped) : \A j \in 1..Len(q) : popped[i] < q[j]
GenConstraint == Len(hist) < Depth
GenInv == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
=============================================================================
