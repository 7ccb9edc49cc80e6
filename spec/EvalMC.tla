------------------------------- MODULE EvalMC -------------------------------
EXTENDS Eval, TLC, Json
CONSTANTS N, Mode, K, MaxLen, MaxT, Gen
c == [n |-> N, mode |-> Mode, k |-> K, maxlen |-> MaxLen]
VARIABLES s, t, script, eps, ended
\* eps: set of [slot, from, to, r] of complete episodes, from the history alone
vars == <<s, t, script, eps, ended>>
B == [1..N -> BOOLEAN]
R == IF Gen THEN {1} ELSE {0, 1}
Init == s = InitState(c) /\ t = 0 /\ script = << >> /\ eps = [i \in 1..N |-> << <<1, 0>> >>] /\ ended = FALSE
Zero == Rep(c, 0)
F == Rep(c, FALSE)
Round(d, nd, r) ==
    LET s1 == IF s.pc = "init" THEN Step(c, s, [op |-> "reset", mask |-> F, obs |-> Zero])
              ELSE IF \E i \in 1..N : s.over[i]
              THEN Step(c, s, [op |-> "reset", mask |-> [i \in 1..N |-> ~s.over[i]], obs |-> Zero]) ELSE s
        s2 == Step(c, s1, [op |-> "act", obs |-> Zero, a |-> Zero, evalmode |-> TRUE])
        s3 == Step(c, s2, [op |-> "step", a |-> Zero, obs |-> Zero, r |-> r, done |-> d, need |-> nd])
        s4 == Step(c, s3, [op |-> "observe", obs |-> Zero, r |-> r, done |-> d, reset |-> ResetFlags(c, s3)])
    IN s4
Next ==
    /\ ~ended
    /\ IF s.pc # "init" /\ Determined(c, s)
       THEN ended' = TRUE /\ UNCHANGED <<s, t, script, eps>>
       ELSE /\ t < MaxT
            /\ \E d \in B, nd \in (IF Gen THEN {F} ELSE B), r \in [1..N -> R] :
                 /\ s' = Round(d, nd, r)
                 /\ script' = IF Gen THEN Append(script, <<d, nd>>) ELSE << >>
                 \* <<first step, return>> per episode of the slot, the last one running
                 /\ eps' = [i \in 1..N |->
                      LET q == eps[i]  n == Len(q)  q1 == [q EXCEPT ![n][2] = @ + r[i]]
                      IN IF s'.over[i] THEN Append(q1, <<t + 2, 0>>) ELSE q1]
            /\ t' = t + 1 /\ UNCHANGED ended
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* an independent statement of which episodes count: all complete episodes, ordered by starting
\* step and then by slot, of which the first K
Complete == UNION { { <<eps[i][k][1], i, k>> : k \in 1..(Len(eps[i]) - 1) } : i \in 1..N }
Started == UNION { { <<eps[i][k][1], i, k>> : k \in 1..Len(eps[i]) } : i \in 1..N }
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Rank(a) == 1 + Cardinality({ b \in Started : Before(b, a) })
EpsRight ==
    (ended /\ Mode = "episodes") =>
      \A a \in Started : Rank(a) <= K =>
         /\ a \in Complete
         /\ Expected(c, s)[Rank(a)][1] = eps[a[2]][a[3]][2]
\* with steps: never more than the allotted number of steps, never nothing
StepsRight ==
    (ended /\ Mode = "steps") =>
      LET e == Expected(c, s)
          T[k \in 0..Len(e)] == IF k = 0 THEN 0 ELSE T[k - 1] + e[k][2]
      IN Len(e) >= 1 /\ T[Len(e)] <= K
Bounded == MaxLen > 0 => \A i \in 1..N : s.len[i] <= MaxLen
GenInv == IF Gen /\ ended THEN PrintT("@@" \o ToJson(script)) ELSE TRUE
Stops == <>(ended \/ t = MaxT)
=============================================================================
