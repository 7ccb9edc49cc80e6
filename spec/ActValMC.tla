------------------------------ MODULE ActValMC ------------------------------
(***************************************************************************)
(* An action value that computes its greedy actions once and keeps them, with *)
(* slices as objects of their own: every table of small values, every order of *)
(* questions.  Mut: broken variants.                                           *)
(***************************************************************************)
EXTENDS ActVal, TLC, Json
CONSTANTS MaxN, Vals, B, A, Kind, Gen, Mut
VARIABLES sp, bad, cache, cnt, tab, hist, over
vars == <<sp, bad, cache, cnt, tab, hist, over>>
CD == [kind |-> "disc", rows |-> [i \in 1..B |-> [q |-> tab[i]]]]
CQ == [kind |-> "quad", rows |-> [i \in 1..B |-> [mu |-> tab[i], v |-> i, m |-> [x \in 1..A |-> [y \in 1..A |-> IF x = y THEN 2 ELSE 1]]]],
       lo |-> [i \in 1..A |-> 0], hi |-> [i \in 1..A |-> 1]]
C == IF Kind = "disc" THEN CD ELSE CQ
QuadVals == {0 - 1, 1, 2}
Idxs == {<<1>>, <<2>>, <<2, 1>>, <<2, 2>>}
Acts == IF Kind = "disc" THEN 0..(A - 1) ELSE [1..A -> {0, 1, 2}]
\* what the implementation computes from its rows
FirstBest(r) == IF Kind = "quad" THEN [i \in 1..A |-> LET x == tab[r][i]
                                                       y == IF Mut = "bounds" THEN x ELSE IF x < 0 THEN 0 ELSE x
                                                   IN IF y > 1 THEN 1 ELSE y]
                ELSE IF Mut = "worst" THEN CHOOSE a \in 0..(A - 1) : \A o \in 0..(A - 1) : tab[r][a + 1] <= tab[r][o + 1]
                ELSE CHOOSE a \in 0..(A - 1) : \A o \in 0..(A - 1) : tab[r][a + 1] >= tab[r][o + 1]
Val(r, a) == (Num(C, r, a) * K) \div Den(C)
Init == /\ tab \in [1..B -> [1..A -> Vals]] /\ sp = [objs |-> <<[i \in 1..B |-> i]>>] /\ bad = ""
        /\ cache = <<<<>>>> /\ cnt = 0 /\ hist = <<>> /\ over = FALSE
Note(x) == IF Gen THEN Append(hist, x) ELSE hist
Greedy(o) == IF cache[o] # <<>> THEN cache[o] ELSE [i \in 1..Len(sp.objs[o]) |-> FirstBest(sp.objs[o][i])]
Ask(ev, o) == /\ bad' = Clause(C, sp, ev) /\ sp' = Step(C, sp, ev) /\ cnt' = cnt + 1 /\ UNCHANGED <<tab, over>>
Query ==
    \E o \in 1..Len(sp.objs) :
        LET rows == sp.objs[o]
            g == Greedy(o)
            fill == [cache EXCEPT ![o] = g] IN
        \/ /\ Ask([op |-> "query", obj |-> o, what |-> "greedy", res |-> g], o) /\ cache' = fill
           /\ hist' = Note([k |-> "query", obj |-> o, what |-> "greedy"])
        \/ /\ Ask([op |-> "query", obj |-> o, what |-> "max",
                   res |-> [i \in 1..Len(rows) |-> Val(IF Mut = "firstrow" THEN rows[1] ELSE rows[i], g[i])]], o)
           /\ cache' = fill /\ hist' = Note([k |-> "query", obj |-> o, what |-> "max"])
        \/ \E a \in Acts :
           /\ Ask([op |-> "query", obj |-> o, what |-> "adv", a |-> [i \in 1..Len(rows) |-> a],
                   res |-> [i \in 1..Len(rows) |-> Val(rows[i], a) - Val(rows[i], g[i])]], o)
           /\ cache' = fill /\ hist' = Note([k |-> "query", obj |-> o, what |-> "adv"])
Slice ==
    \E o \in 1..Len(sp.objs), idx \in Idxs :
        /\ \A i \in 1..Len(idx) : idx[i] <= Len(sp.objs[o])
        /\ Ask([op |-> "slice", obj |-> o, idx |-> idx], o)
        /\ cache' = Append(cache, IF Mut = "inherit" /\ cache[o] # <<>> /\ Len(idx) <= Len(cache[o])
                                  THEN [i \in 1..Len(idx) |-> cache[o][i]] ELSE <<>>)
        /\ hist' = Note([k |-> "slice", obj |-> o, idx |-> idx])
Turn == bad = "" /\ cnt < MaxN /\ ~over /\ (Query \/ Slice)
Done == /\ cnt = MaxN /\ bad = "" /\ ~over /\ over' = TRUE /\ (Gen => PrintT("@@" \o ToJson(hist)))
        /\ UNCHANGED <<sp, bad, cache, cnt, tab, hist>>
Next == Turn \/ Done
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
\* with a bounded symmetric form whose off-diagonal part is small the clipped mean is as good as it
\* gets only for a diagonal form; what is required is that max and greedy belong together
Together == \A o \in 1..Len(sp.objs) : \A i \in 1..Len(sp.objs[o]) :
    Num(C, sp.objs[o][i], FirstBest(sp.objs[o][i])) = Top(C, sp.objs[o][i])
=============================================================================
