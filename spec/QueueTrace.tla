------------------------------ MODULE QueueTrace ------------------------------
EXTENDS Queue, TraceShell

Start(c) == QNew(c.maxlen, c.init)

After(c, q, ev) ==
    CASE ev.op = "append" -> QAppend(c.maxlen, q, ev.x)
      [] ev.op = "extend" -> QExtend(c.maxlen, q, ev.xs)
      [] ev.op = "pop"    -> QPop(q)
      [] ev.op = "set"    -> QSet(q, ev.i, ev.x)
      [] OTHER            -> q

\* the complete read-out after an operation: length, iteration, every index
\* from -(len+2) to len+1 (a missing item is reported as -1: IndexError)
ReadOutOK(q, o) ==
    /\ o.len = Len(q)
    /\ o.iter = q
    /\ \A k \in 1..Len(o.idx) :
          LET p == Pos(q, o.idx[k].i)
          IN o.idx[k].v = (IF p = 0 THEN -1 ELSE q[p])

Verdict(c, q, ev) ==
    IF ~ReadOutOK(After(c, q, ev), ev.o) THEN "contents-differ-from-list"
    ELSE CASE ev.op = "pop" ->
                IF ev.ret # (IF q = << >> THEN -1 ELSE Head(q)) THEN "pop-result" ELSE ""
           [] ev.op = "set" ->
                IF ev.ok # (Pos(q, ev.i) # 0) THEN "set-range-check" ELSE ""
           [] ev.op = "sample" ->
                IF \/ Len(ev.res) # ev.k
                   \/ \E i \in 1..Len(ev.res) : \A j \in 1..Len(q) : q[j] # ev.res[i]
                   \/ \E i, j \in 1..Len(ev.res) : i # j /\ ev.res[i] = ev.res[j]
                THEN "sample" ELSE ""
           [] OTHER -> ""
=============================================================================
