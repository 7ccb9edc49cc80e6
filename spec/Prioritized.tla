----------------------------- MODULE Prioritized -----------------------------
(***************************************************************************)
(* Prioritized buffer.  Priorities are positive integers (units).          *)
(* s = [items |-> Seq([v, p]) oldest first,                                 *)
(*      maxp  |-> largest priority assigned by an update (initially c.p0),  *)
(*      samp  |-> values drawn last, in order, wait |-> update outstanding, *)
(*      draws |-> number of weighted draws so far]                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
InitState(c) == [items |-> << >>, maxp |-> c.p0, samp |-> << >>, wait |-> FALSE, draws |-> 0]

PopFront(s) == IF s.items = << >> THEN s ELSE [s EXCEPT !.items = Tail(@)]

\* p = 0: no explicit priority
DoAppend(c, s, v, p) ==
    LET s1 == IF c.cap > 0 /\ Len(s.items) = c.cap THEN PopFront(s) ELSE s
    IN [s1 EXCEPT !.items = Append(@, [v |-> v, p |-> IF p = 0 THEN s.maxp ELSE p])]

DoSample(c, s, vals) == [s EXCEPT !.samp = vals, !.wait = TRUE, !.draws = @ + 1]

\* positions (in items) of value v; empty when it has been popped
Has(s, v) == \E i \in 1..Len(s.items) : s.items[i].v = v
NewP(s, v, p, ps) ==   \* priority of v after assigning ps to s.samp
    LET hits == { k \in 1..Len(s.samp) : s.samp[k] = v }
    IN IF hits = {} THEN p ELSE ps[CHOOSE k \in hits : \A j \in hits : j <= k]
DoSet(c, s, ps) ==
    LET live == { k \in 1..Len(s.samp) : Has(s, s.samp[k]) }
        big  == { ps[k] : k \in live } \cup { s.maxp }
    IN [s EXCEPT !.items = [i \in 1..Len(@) |-> [v |-> @[i].v, p |-> NewP(s, @[i].v, @[i].p, ps)]],
                 !.maxp  = CHOOSE m \in big : \A x \in big : x <= m,
                 !.samp  = << >>, !.wait = FALSE]

RECURSIVE SumP(_)
SumP(items) == IF items = << >> THEN 0 ELSE Head(items).p + SumP(Tail(items))
MinP(items) == CHOOSE m \in { items[i].p : i \in 1..Len(items) } :
                   \A i \in 1..Len(items) : m <= items[i].p
POf(s, v) == s.items[CHOOSE i \in 1..Len(s.items) : s.items[i].v = v].p

\* probability of an item of priority p as a fraction of ProbDen, with uniform
\* share c.u / 8
ProbDen(c, s)    == 8 * Len(s.items) * SumP(s.items)
ProbNum(c, s, p) == c.u * SumP(s.items) + (8 - c.u) * p * Len(s.items)

\* errors to priorities, in units: (clip(error) + eps) ^ alpha
Clip(c, e) == IF c.clip THEN Min2(c.emax, Max2(c.emin, e)) ELSE e
PriorityOf(c, e) == LET x == Clip(c, e) + c.eps IN IF c.alpha = 2 THEN x * x ELSE IF c.alpha = 0 THEN 1 ELSE x

\* exponent of the weights, in quarters, at the k-th weighted draw (from 0)
BetaQ(c, k) == Min2(4, c.b0 + k * c.badd)
=============================================================================
