--------------------------- MODULE EpisodicBuffer ---------------------------
(* Episodic replay: c = [cap (0: unbounded), envs];
   s = [eps |-> finished episodes, oldest first, cur |-> running episodes].   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

InitState(c) == [eps |-> << >>, cur |-> [e \in 0..(c.envs - 1) |-> << >>]]

RECURSIVE Total(_)
Total(eps) == IF eps = << >> THEN 0 ELSE Len(Head(eps)) + Total(Tail(eps))
RECURSIVE Evict(_, _)
Evict(cap, eps) == IF cap > 0 /\ Total(eps) > cap THEN Evict(cap, Tail(eps)) ELSE eps

DoStop(c, s, env) ==
    IF s.cur[env] = << >> THEN s
    ELSE [eps |-> Evict(c.cap, Append(s.eps, s.cur[env])),
          cur |-> [s.cur EXCEPT ![env] = << >>]]
DoAppend(c, s, env, t) ==
    LET s1 == [s EXCEPT !.cur[env] = Append(@, t)]
    IN IF t.term THEN DoStop(c, s1, env) ELSE s1
DoReload(c, s) == [s EXCEPT !.cur = [e \in DOMAIN s.cur |-> << >>]]

Transitions(s) == UNION { { s.eps[i][j] : j \in 1..Len(s.eps[i]) } : i \in 1..Len(s.eps) }
\* part p is a contiguous piece of episode e of length min(limit, |e|)
PartOf(p, e, limit) ==
    LET n == IF limit >= 0 /\ limit < Len(e) THEN limit ELSE Len(e)
    IN /\ Len(p) = n
       /\ \E i \in 0..(Len(e) - n) : p = SubSeq(e, i + 1, i + n)
=============================================================================
