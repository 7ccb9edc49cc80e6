-------------------------------- MODULE Queue --------------------------------
(* A FIFO queue with random access and a maximum length (maxlen < 0: none).  *)
EXTENDS Integers, Sequences

Keep(m, q) == IF m >= 0 /\ Len(q) > m THEN SubSeq(q, Len(q) - m + 1, Len(q)) ELSE q
QNew(m, xs)       == Keep(m, xs)
QAppend(m, q, x)  == Keep(m, Append(q, x))
QExtend(m, q, xs) == Keep(m, q \o xs)
QPop(q)           == IF q = << >> THEN q ELSE Tail(q)
\* Python indexing: position of index i, 0 when out of range
Pos(q, i) == IF i >= 0 /\ i < Len(q) THEN i + 1
             ELSE IF i < 0 /\ -i <= Len(q) THEN Len(q) + i + 1 ELSE 0
QSet(q, i, x) == IF Pos(q, i) = 0 THEN q ELSE [q EXCEPT ![Pos(q, i)] = x]
=============================================================================
