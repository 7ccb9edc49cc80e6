---------------------------- MODULE ReplayBuffer ----------------------------
(***************************************************************************)
(* n-step experience replay with bounded capacity and several environments *)
(* feeding one buffer (pfrl.replay_buffers.ReplayBuffer and the prioritized*)
(* and persistent buffers built on it).                                    *)
(*                                                                         *)
(* c = [n |-> window length, cap |-> capacity (0: unbounded), envs |-> k]   *)
(* s = [mem  |-> stored entries, oldest first; an entry is a run of         *)
(*               consecutive transitions,                                   *)
(*      pend |-> per environment, the window of the running episode]        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

LastN(q, k) == IF Len(q) > k THEN SubSeq(q, Len(q) - k + 1, Len(q)) ELSE q
Trim(c, m)  == IF c.cap > 0 THEN LastN(m, c.cap) ELSE m
SuffixRuns(w, from) == [i \in 1..(IF Len(w) >= from THEN Len(w) - from + 1 ELSE 0)
                        |-> SubSeq(w, i + from - 1, Len(w))]

InitState(c) == [mem |-> <<>>, pend |-> [e \in 0..(c.envs - 1) |-> <<>>]]

\* entries that become storable when transition t of environment env is observed
NewOnAppend(c, s, env, t) ==
    LET w == LastN(Append(s.pend[env], t), c.n)
    IN IF t.term THEN SuffixRuns(w, 1)
       ELSE IF Len(w) = c.n THEN << w >> ELSE << >>

DoAppend(c, s, env, t) ==
    [mem  |-> Trim(c, s.mem \o NewOnAppend(c, s, env, t)),
     pend |-> [s.pend EXCEPT ![env] =
                  IF t.term THEN << >> ELSE LastN(Append(@, t), c.n)]]

\* the episode of env is cut without a terminal state
NewOnStop(c, s, env) ==
    LET w == s.pend[env]
    IN IF Len(w) = c.n THEN SuffixRuns(w, 2) ELSE SuffixRuns(w, 1)

DoStop(c, s, env) ==
    [mem  |-> Trim(c, s.mem \o NewOnStop(c, s, env)),
     pend |-> [s.pend EXCEPT ![env] = << >>]]

\* saving and loading into a fresh buffer keeps what is stored
DoReload(c, s) == [s EXCEPT !.pend = [e \in DOMAIN s.pend |-> << >>]]

\* a legal sample of k entries: k different stored entries
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
SampleOK(s, k, res) ==
    /\ Len(res) = k
    /\ \A i \in 1..k : \E j \in 1..Len(s.mem) : s.mem[j] = res[i]
    /\ Distinct(res)
=============================================================================
