--------------------------- MODULE ReplayBufferMC ---------------------------
(* Exhaustive exploration of ReplayBuffer, with a ghost log against which the
   declarative form of the guarantees is stated. *)
EXTENDS ReplayBuffer, TLC, Json

CONSTANTS N, Cap, Envs, MaxT, Depth
c == [n |-> N, cap |-> Cap, envs |-> Envs]

VARIABLES s,      \* the buffer
          log,    \* ghost: every observed transition [env, ep, id, term]
          ep,     \* ghost: running episode number per environment
          open,   \* ghost: has the running episode of env any transition?
          ever,   \* ghost: every entry ever stored, in order
          hist    \* operations so far (generator configurations only)
vars == <<s, log, ep, open, ever, hist>>

Ids == 0..(Envs - 1)
Init ==
    /\ s = InitState(c) /\ log = << >> /\ ever = << >>
    /\ ep = [e \in Ids |-> 0] /\ open = [e \in Ids |-> FALSE]
    /\ hist = << >>

Record(h) == hist' = IF Depth > 0 THEN Append(hist, h) ELSE hist

Observe(env, term) ==
    /\ Len(log) < MaxT
    /\ LET t == [id |-> Len(log) + 1, term |-> term]
       IN /\ s' = DoAppend(c, s, env, t)
          /\ ever' = ever \o NewOnAppend(c, s, env, t)
          /\ log' = Append(log, [env |-> env, ep |-> ep[env], id |-> t.id, term |-> term])
          /\ ep' = IF term THEN [ep EXCEPT ![env] = @ + 1] ELSE ep
          /\ open' = [open EXCEPT ![env] = ~term]
          /\ Record([op |-> "append", env |-> env, term |-> term])

Stop(env) ==
    /\ s' = DoStop(c, s, env)
    /\ ever' = ever \o NewOnStop(c, s, env)
    /\ ep' = IF open[env] THEN [ep EXCEPT ![env] = @ + 1] ELSE ep
    /\ open' = [open EXCEPT ![env] = FALSE]
    /\ UNCHANGED log
    /\ Record([op |-> "stop", env |-> env])

Next == \E env \in Ids : Stop(env) \/ \E term \in BOOLEAN : Observe(env, term)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* The run that starts at log position i: later transitions of the same
\* environment and the same episode, at most N of them.
Followers(i) == { j \in i..Len(log) : log[j].env = log[i].env /\ log[j].ep = log[i].ep }
Run(i) == LET q == SetToSortSeq(Followers(i), <)
          IN [k \in 1..(IF Len(q) < N THEN Len(q) ELSE N) |-> q[k]]
Over(i) == log[i].ep < ep[log[i].env]           \* its episode has ended
Due(i)  == Over(i) \/ Cardinality(Followers(i)) >= N

IdsOf(e) == [k \in 1..Len(e) |-> e[k].id]

\* Every transition starts exactly one entry as soon as its run is complete,
\* none before, and the entry is that run: consecutive, one environment, one
\* episode.
ExactlyOneEntryEach ==
    \A i \in 1..Len(log) :
        LET hits == { k \in 1..Len(ever) : ever[k][1].id = i }
        IN IF Due(i)
           THEN /\ Cardinality(hits) = 1
                /\ \A k \in hits : IdsOf(ever[k]) = Run(i)
           ELSE hits = {}
NoForeignEntries == \A k \in 1..Len(ever) : Len(ever[k]) \in 1..N
\* terminal flags only in last position
TerminalLast == \A k \in 1..Len(ever) : \A j \in 1..(Len(ever[k]) - 1) : ~ever[k][j].term
\* the buffer holds precisely the newest Cap entries
NewestKept == s.mem = IF Cap > 0 THEN LastN(ever, Cap) ELSE ever
CapacityBound == Cap > 0 => Len(s.mem) <= Cap
TypeOK == \A e \in Ids : Len(s.pend[e]) <= N

MCView == <<s, log, ep, open, ever>>
----------------------------------------------------------------------------
\* generator: print every history of exactly Depth operations
DepthBound == Len(hist) <= Depth
Emit == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
GenInv == Emit
GenConstraint == Len(hist) < Depth
=============================================================================
