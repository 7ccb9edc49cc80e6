------------------------------- MODULE DistMC -------------------------------
(***************************************************************************)
(* The projection as an algorithm (position b = (y - vmin)/dz, lower and     *)
(* upper neighbour) against the rule, for every placement of up to two atoms *)
(* on a grid finer than the support and beyond its ends; and the rule's own  *)
(* consequences: mass conserved, mean kept within the support, ends absorb.  *)
(***************************************************************************)
EXTENDS Dist, TLC, Json
CONSTANTS Atoms, Sub, MaxAtoms, Gen, Mut
VARIABLES y, py, bad, done
VMin == 0 - S
DZ == S
Grid == { VMin + (i * S) \div Sub : i \in (0 - 2 * Sub)..((Atoms + 1) * Sub) }
Probs == {0, S \div 4, S}
\* algorithm
Pos(v) == LET vc == IF v < VMin THEN VMin ELSE IF v > VMin + (Atoms - 1) * DZ THEN VMin + (Atoms - 1) * DZ ELSE v
          IN vc - VMin                                  \* in units where dz = S
Lo(v) == (IF Mut = "noclip" THEN v - VMin ELSE Pos(v)) \div S
Frac(v) == Pos(v) - Lo(v) * S
Up(v) == IF Frac(v) = 0 THEN Lo(v) ELSE Lo(v) + 1
Alg == [k \in 1..Atoms |-> SumSeq([j \in 1..Len(y) |->
          (IF Lo(y[j]) = k - 1
           THEN (IF Mut = "upper" /\ Frac(y[j]) = 0 THEN 0 ELSE FMul(py[j], S - Frac(y[j]))) ELSE 0)
          + (IF Up(y[j]) = k - 1 THEN FMul(py[j], Frac(y[j])) ELSE 0)])]
Ev == [op |-> "project", y |-> y, py |-> py, vmin |-> VMin, dz |-> DZ, n |-> Atoms, out |-> Alg]
Init == y = <<>> /\ py = <<>> /\ bad = "" /\ done = FALSE
Add == /\ ~done /\ Len(y) < MaxAtoms
       /\ \E v \in Grid, p \in Probs : y' = Append(y, v) /\ py' = Append(py, p)
       /\ UNCHANGED <<bad, done>>
Check == /\ ~done /\ y # <<>> /\ done' = TRUE
         /\ bad' = Clause([fam |-> "cat"], InitState([fam |-> "cat"]), Ev)
         /\ (Gen => PrintT("@@" \o ToJson([y |-> y, py |-> py])))
         /\ UNCHANGED <<y, py>>
Next == Add \/ Check
Spec == Init /\ [][Next]_<<y, py, bad, done>>
Conforms == bad = ""
P == Project(VMin, DZ, Atoms, y, py)
Mass == Near(SumSeq(P), SumSeq(py), 4)
Inside(v) == v >= VMin /\ v <= VMin + (Atoms - 1) * DZ
Mean == (\A j \in 1..Len(y) : Inside(y[j])) =>
          Near(SumSeq([k \in 1..Atoms |-> FMul(P[k], VMin + (k - 1) * DZ)]),
               SumSeq([j \in 1..Len(y) |-> FMul(py[j], y[j])]), 16)
Ends == (\A j \in 1..Len(y) : y[j] > VMin + (Atoms - 1) * DZ) => Near(P[Atoms], SumSeq(py), 4)
=============================================================================
