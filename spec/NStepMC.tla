------------------------------- MODULE NStepMC -------------------------------
(* The batch row of an n-step entry composes: taking the first k steps and then
   the rest gives the same return, discount and end state. *)
EXTENDS NStep, TLC, Json
CONSTANTS G, MaxN, Rewards
VARIABLE e
T(id, r, b) == [st |-> id, ac |-> 10 + id, rw |-> r, ns |-> 20 + id, na |-> 30 + id, term |-> b]
Init == e \in { << T(1, r, b) >> : r \in Rewards, b \in BOOLEAN }
Next == /\ Len(e) < MaxN /\ ~e[Len(e)].term
        /\ \E r \in Rewards, b \in BOOLEAN : e' = Append(e, T(Len(e) + 1, r, b))
Spec == Init /\ [][Next]_e
Compose ==
    \A k \in 1..(Len(e) - 1) :
        LET a == SubSeq(e, 1, k)  b == SubSeq(e, k + 1, Len(e))
        IN RetNum(G, e) = RetNum(G, a) * Pow(G, Len(e) - k) + RetNum(G, b)
EndState == Row(G, e).ns = Last(e).ns /\ (Row(G, e).term <=> Last(e).term)
GenInv == PrintT("@@" \o ToJson(e))
=============================================================================
