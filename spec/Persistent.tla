------------------------------ MODULE Persistent ------------------------------
(***************************************************************************)
(* The persistent queue as its user sees it: directories that hold logs,    *)
(* sessions that append, crashes at any point, reopening, and lineage.      *)
(* s.dir[d] = [made, log, maybe, anc, linked]; maybe: items whose append was*)
(* interrupted (any prefix of them may have reached the disk).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

KeepNewest(cap, q) == IF cap > 0 /\ Len(q) > cap THEN SubSeq(q, Len(q) - cap + 1, Len(q)) ELSE q
NoDir == [made |-> FALSE, log |-> << >>, maybe |-> << >>, anc |-> 0]
InitDirs(n) == [d \in 1..n |-> NoDir]

\* all logs directory d may have, given what a crash left undetermined
Logs(x) == { x.log \o SubSeq(x.maybe, 1, k) : k \in 0..Len(x.maybe) }

\* everything a session opened with ancestor a can see of the lineage, oldest
\* first: the ancestor's own lineage (recorded when it was created), then it
RECURSIVE Chains(_, _, _)
Chains(dirs, a, fuel) ==
    IF a = 0 \/ fuel = 0 THEN { << >> }
    ELSE { p \o q : p \in Chains(dirs, dirs[a].anc, fuel - 1), q \in Logs(dirs[a]) }

\* contents a new session on d (with ancestor a, 0: none) may start with
OpenContents(cap, dirs, d, a) ==
    { KeepNewest(cap, p \o q) : p \in Chains(dirs, a, 5), q \in Logs(dirs[d]) }

\* reopening settles what was undetermined: the log is one whose view matches
Settle(cap, dirs, d, a, got) ==
    LET fits == { q \in Logs(dirs[d]) :
                    \E p \in Chains(dirs, a, 5) : KeepNewest(cap, p \o q) = got }
        q == IF fits = {} THEN dirs[d].log
             ELSE CHOOSE x \in fits : \A y \in fits : Len(y) <= Len(x)
    IN [dirs EXCEPT ![d] = [@ EXCEPT !.log = q, !.maybe = << >>]]
Create(dirs, d, a) ==
    IF dirs[d].made THEN dirs ELSE [dirs EXCEPT ![d].made = TRUE, ![d].anc = a]
=============================================================================
