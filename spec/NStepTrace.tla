------------------------------ MODULE NStepTrace ------------------------------
EXTENDS NStep, TraceShell, FiniteSets
Start(c) == 0
After(c, st, ev) == st
Abs(x) == IF x < 0 THEN -x ELSE x
\* rewards are reported times g^(MaxLen) (integers), discounts likewise
Verdict(c, st, ev) ==
    CASE ev.op = "batch" ->
        LET n == Len(ev.entries)
            R(i) == Row(c.g, ev.entries[i])
        IN IF \E f \in {"st", "ac", "rw", "ns", "term", "disc"} : Len(ev.out[f]) # n
              THEN "batch-size"
           ELSE IF \E i \in 1..n : ev.out.st[i] # R(i).st THEN "state"
           ELSE IF \E i \in 1..n : ev.out.ac[i] # R(i).ac THEN "action"
           ELSE IF \E i \in 1..n :
                   ev.out.rw[i] * Pow(c.g, R(i).n - 1) # R(i).retnum * c.unit THEN "discounted-reward"
           ELSE IF \E i \in 1..n : ev.out.ns[i] # R(i).ns THEN "next-state"
           ELSE IF \E i \in 1..n : ev.out.term[i] # (IF R(i).term THEN 1 ELSE 0) THEN "terminal"
           ELSE IF \E i \in 1..n : ev.out.disc[i] * Pow(c.g, R(i).n) # c.unit THEN "discount"
           ELSE IF /\ ev.hasna # (\A i \in 1..n : R(i).na >= 0) THEN "next-action-presence"
           ELSE IF ev.hasna /\ \E i \in 1..n : ev.out.na[i] # R(i).na THEN "next-action" ELSE ""
      [] ev.op = "rbatch" ->
        \* recurrent: episodes (sorted by length), flattened time first
        LET E == ev.entries
            maxl == Len(E[1])
            Idx == [t \in 1..maxl |-> { i \in 1..Len(E) : Len(E[i]) >= t }]
            Off(t) == LET F[k \in 0..maxl] == IF k = 0 THEN 0 ELSE F[k - 1] + (LET S == Idx[k] IN Cardinality(S))
                      IN F[t - 1]
            tot == Off(maxl + 1)
        IN IF \E f \in {"ac", "rw", "term", "disc"} : Len(ev.out[f]) # tot THEN "batch-size"
           ELSE IF \E t \in 1..maxl : \E i \in Idx[t] :
                     LET p == Off(t) + i  x == E[i][t]
                     IN \/ ev.out.ac[p] # x.ac \/ ev.out.rw[p] # x.rw * c.unit
                        \/ ev.out.term[p] # (IF x.term THEN 1 ELSE 0)
                        \/ ev.out.disc[p] * c.g # c.unit
                THEN "time-first-flattening"
           ELSE IF \E i \in 1..Len(E) : \/ ev.out.st[i] # [t \in 1..Len(E[i]) |-> E[i][t].st]
                                        \/ ev.out.ns[i] # [t \in 1..Len(E[i]) |-> E[i][t].ns]
                THEN "sequence-states"
           \* a missing state (below 0) is a fresh one; all missing: none at all
           ELSE IF ev.nors # (\A i \in 1..Len(E) : E[i][1].rs < 0) \/ ev.nonrs # (\A i \in 1..Len(E) : E[i][1].nrs < 0)
                THEN "recurrent-state-presence"
           ELSE IF \E i \in 1..Len(E) : \/ ~ev.nors /\ ev.out.rs[i] # (IF E[i][1].rs < 0 THEN 0 ELSE E[i][1].rs)
                                        \/ ~ev.nonrs /\ ev.out.nrs[i] # (IF E[i][1].nrs < 0 THEN 0 ELSE E[i][1].nrs)
                THEN "recurrent-state"
           ELSE IF ev.hasna # (\A i \in 1..Len(E) : \A t \in 1..Len(E[i]) : E[i][t].na >= 0) THEN "next-action-presence"
           ELSE IF ev.hasna /\ \E t \in 1..maxl : \E i \in Idx[t] : ev.out.na[Off(t) + i] # E[i][t].na
                THEN "next-action" ELSE ""
      [] OTHER -> "unknown-event"
=============================================================================
