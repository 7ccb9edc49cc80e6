-------------------------------- MODULE NStep --------------------------------
(* Vectorizing stored n-step entries.  gamma = 1/g with g a power of two;    *)
(* an entry is a sequence of transitions [st, ac, rw, ns, na, term].         *)
EXTENDS Integers, Sequences
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
\* sum of gamma^i r_i, in units of gamma^(n) : integer
RECURSIVE RetNum(_, _)
RetNum(g, e) == \* numerator over g^(Len(e)-1)
    IF Len(e) = 1 THEN e[1].rw
    ELSE e[1].rw * Pow(g, Len(e) - 1) + RetNum(g, Tail(e))
First(e) == e[1]
Last(e)  == e[Len(e)]
AnyTerminal(e) == \E i \in 1..Len(e) : e[i].term

Row(g, e) == [st |-> First(e).st, ac |-> First(e).ac, ns |-> Last(e).ns, na |-> Last(e).na,
              term |-> AnyTerminal(e), retnum |-> RetNum(g, e), n |-> Len(e)]
=============================================================================
