------------------------------ MODULE SeqnetMC ------------------------------
(***************************************************************************)
(* The packed computation: layer by layer over all sequences at once, time    *)
(* axis first, states kept per layer for all slots together, as the containers *)
(* do it; against the rule of one slot at a time.  Mut: broken variants.        *)
(***************************************************************************)
EXTENDS Seqnet, TLC, Json
CONSTANTS MaxN, Nets, Lens, Gen, Mut
VARIABLES sp, bad, bst, wid, cnt, hist, over, net
vars == <<sp, bad, bst, wid, cnt, hist, over, net>>

R1(a, bb, kk) == [t |-> "rnn", w |-> <<[a |-> a, b |-> bb, k |-> kk]>>]
R2 == [t |-> "rnn", w |-> <<[a |-> 1, b |-> 1, k |-> 1], [a |-> 1, b |-> 2, k |-> 0]>>]
CL == [t |-> "cell", a |-> 1, b |-> 2, k |-> 1]
LN == [t |-> "lin", a |-> 2, k |-> 1]
MX == [t |-> "mix", w |-> <<1, 3>>]
NetOf(i) == CASE i = 1 -> [t |-> "seq", kids |-> <<LN, R1(1, 1, 0), LN, CL>>]
              [] i = 2 -> [t |-> "br", kids |-> <<R1(1, 2, 1), [t |-> "seq", kids |-> <<LN, R2>>]>>]
              [] i = 3 -> [t |-> "seq", kids |-> <<[t |-> "br", kids |-> <<R1(1, 1, 0), CL>>], MX, R1(2, 1, 1), LN>>]
              [] i = 4 -> R2
              [] i = 5 -> [t |-> "br", kids |-> <<R1(1, 1, 0), R1(2, 1, 1)>>]
LensS == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<1>>}
LensB == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<1>>, <<1, 3, 2>>}
C == [net |-> NetOf(net)]

None == [k |-> "none"]
\* the slots in the order of the packed data: longest first
Perm(ls) == CHOOSE p \in [1..Len(ls) -> 1..Len(ls)] :
    /\ \A i, j \in 1..Len(ls) : i # j => p[i] # p[j]
    /\ \A i, j \in 1..Len(ls) : i < j => (ls[p[i]] > ls[p[j]] \/ (ls[p[i]] = ls[p[j]] /\ p[i] < p[j]))
InvP(p) == [i \in 1..Len(p) |-> CHOOSE j \in 1..Len(p) : p[j] = i]
Shuf(q, p) == [i \in 1..Len(p) |-> q[p[i]]]
Size(ls, t) == Cardinality({ i \in 1..Len(ls) : ls[i] >= t })
RECURSIVE Off(_, _)
Off(ls, t) == IF t = 1 THEN 0 ELSE Size(ls, t - 1) + Off(ls, t - 1)

\* one layer of a recurrent leaf over packed data: st is the state of each (sorted) slot
RECURSIVE Roll(_, _, _, _, _, _)
Roll(nd, flat, ls, st, t, ys) ==
    IF Size(ls, t) = 0 THEN <<ys, st>>
    ELSE LET m == Size(ls, t)
             r == [i \in 1..Len(st) |->
                    IF i <= m THEN One(nd, st[i], flat[Off(ls, t) + i])
                    ELSE IF Mut = "pad" THEN One(nd, st[i], 0) ELSE <<0, st[i]>>]
         IN Roll(nd, flat, ls, [i \in 1..Len(st) |-> r[i][2]], t + 1, ys \o [i \in 1..m |-> r[i][1]])

\* batched states: one array per layer ("ten") or a tuple of batched states
RECURSIVE At(_, _)
At(x, i) == IF x.k = "ten" THEN [l \in 1..Len(x.v) |-> x.v[l][i]] ELSE [j \in 1..Len(x.v) |-> At(x.v[j], i)]
Ten(m, st) == [k |-> "ten", v |-> [l \in 1..m |-> [i \in 1..Len(st) |-> st[i][l]]]]
BatchOf(nd, st) ==
    IF nd.t = "rnn" THEN Ten(Len(nd.w), st)
    ELSE [k |-> "tup", v |-> <<Ten(1, [i \in 1..Len(st) |-> st[i][1]]), Ten(1, [i \in 1..Len(st) |-> st[i][2]])>>]

RECURSIVE Fwd(_, _, _, _, _), FwdSeq(_, _, _, _, _, _, _, _)
\* ls: lengths (sorted), p: the slots in sorted order
Fwd(nd, flat, ls, p, h) ==
    CASE nd.t \in {"rnn", "cell"} ->
            LET st0 == [i \in 1..Len(ls) |-> IF h.k = "none" THEN Fresh(nd) ELSE At(h, p[i])]
                r == Roll(nd, flat, ls, st0, 1, <<>>)
            IN <<r[1], BatchOf(nd, Shuf(r[2], InvP(p)))>>
      [] nd.t = "seq" -> FwdSeq(nd.kids, flat, ls, p, h, 1, 1, <<>>)
      [] nd.t = "br" ->
            LET r == [i \in 1..Len(nd.kids) |->
                        Fwd(nd.kids[i], flat, ls, p, IF h.k = "none" THEN None
                                                     ELSE IF Mut = "branch" /\ Len(nd.kids) > 1 /\ i = 1 /\ nd.kids[2].t = "rnn" THEN h.v[2]
                                                     ELSE h.v[i])]
            IN <<[j \in 1..Len(flat) |-> [i \in 1..Len(r) |-> r[i][1][j]]], [k |-> "tup", v |-> [i \in 1..Len(r) |-> r[i][2]]]>>
FwdSeq(ks, x, ls, p, h, i, j, acc) ==
    IF i > Len(ks) THEN <<x, [k |-> "tup", v |-> acc]>>
    ELSE IF IsRec(ks[i]) THEN
        LET hj == IF h.k = "none" THEN None
                  ELSE h.v[j]
            \* the wrapped data no longer knows the order of the slots after a plain layer
            pp == IF Mut = "unsort" /\ i > 1 /\ ~IsRec(ks[i - 1]) THEN [q \in 1..Len(p) |-> q] ELSE p
            r == Fwd(ks[i], x, ls, pp, hj)
        IN FwdSeq(ks, r[1], ls, p, h, i + 1, j + 1, Append(acc, r[2]))
    ELSE FwdSeq(ks, [q \in 1..Len(x) |-> One(ks[i], <<>>, x[q])[1]], ls, p, h, i + 1, j, acc)

RECURSIVE MaskB(_, _, _), GetB(_, _), CatB(_)
MaskB(x, I, top) ==
    CASE x.k = "none" -> x
      [] x.k = "ten" -> [x EXCEPT !.v = [l \in 1..Len(@) |-> [i \in 1..Len(@[l]) |-> IF i \in I THEN 0 ELSE @[l][i]]]]
      [] OTHER -> [x EXCEPT !.v = [j \in 1..Len(@) |-> IF Mut = "mask" /\ j > 1 /\ ~top THEN @[j] ELSE MaskB(@[j], I, FALSE)]]
GetB(x, i) ==
    CASE x.k = "none" -> x
      [] x.k = "ten" -> [k |-> "vec", v |-> [l \in 1..Len(x.v) |-> x.v[l][i]]]
      [] OTHER -> [x EXCEPT !.v = [j \in 1..Len(@) |-> GetB(@[j], i)]]
CatB(xs) ==
    IF \A i \in 1..Len(xs) : xs[i].k = "none" THEN None
    ELSE LET f == xs[CHOOSE i \in 1..Len(xs) : xs[i].k # "none"]
             ys == IF Mut = "cat" THEN SelectSeq(xs, LAMBDA x : x.k # "none") ELSE xs
         IN IF f.k = "vec"
            THEN [k |-> "ten", v |-> [l \in 1..Len(f.v) |->
                    [i \in 1..Len(ys) |-> IF ys[i].k = "none" THEN (IF Mut = "catcopy" THEN f.v[l] ELSE 0) ELSE ys[i].v[l]]]]
            ELSE [k |-> "tup", v |-> [j \in 1..Len(f.v) |->
                    CatB([i \in 1..Len(ys) |-> IF ys[i].k = "none" THEN None ELSE ys[i].v[j]])]]

States(x, m) == IF x.k = "none" THEN <<>> ELSE [i \in 1..m |-> At(x, i)]
RECURSIVE Wid(_)
Wid(x) == IF x.k = "ten" THEN Len(x.v[1]) ELSE Wid(x.v[1])
Rec(op, x, grad) == [op |-> op, none |-> x.k = "none", state |-> IF x.k = "none" THEN <<>> ELSE States(x, Wid(x)),
                 before |-> States(bst, wid), grad |-> IF x.k # "none" /\ grad THEN 1 ELSE 0]
\* all inputs of the run are different from their neighbours
Inputs(ls) == [i \in 1..Len(ls) |-> [t \in 1..ls[i] |-> 1 + ((7 * cnt + 3 * i + 5 * t) % 4)]]
SortedLs(ls) == \A i, j \in 1..Len(ls) : i < j => ls[i] >= ls[j]
Init == /\ net \in Nets /\ sp = InitState(C) /\ bad = "" /\ bst = None /\ wid = 0 /\ cnt = 0 /\ hist = <<>> /\ over = FALSE
Play(ev, x, m, step) ==
    /\ bad' = Clause(C, sp, ev) /\ sp' = Step(C, sp, ev) /\ bst' = x /\ wid' = m /\ cnt' = cnt + 1
    /\ hist' = (IF Gen THEN Append(hist, step) ELSE hist) /\ UNCHANGED <<over, net>>
Forward ==
    \E ls \in Lens :
        /\ bst.k # "none" => Len(ls) = wid
        /\ LET xs == Inputs(ls)
               p == Perm(ls)
               sls == Shuf(ls, p)
               flat == TimeFirst(Shuf(xs, p), 1)
               r == Fwd(C.net, flat, sls, p, bst)
               how == IF \A i \in 1..Len(ls) : ls[i] = 1 THEN "one" ELSE IF SortedLs(ls) THEN "pack" ELSE "direct"
               ip == InvP(p)
               ys == [i \in 1..Len(ls) |-> [t \in 1..ls[i] |-> r[1][Off(sls, t) + ip[i]]]]
               ev == Rec("forward", r[2], TRUE) @@ [xs |-> xs, how |-> how, ys |-> ys, flatx |-> flat, flaty |-> r[1]]
           IN Play(ev, r[2], Len(ls), [op |-> "forward", how |-> how, sorted |-> SortedLs(ls), xs |-> xs])
Mask == bst.k # "none" /\ \E I \in (SUBSET (1..wid)) \ {{}} :
    LET idx == IF I = {1} THEN <<1>> ELSE IF I = {2} THEN <<2>> ELSE IF I = {1, 2} THEN <<1, 2>> ELSE <<3>>
        J == { idx[i] : i \in 1..Len(idx) }
        x == MaskB(bst, J, TRUE) IN
    J = I /\ Play(Rec("mask", x, sp.grad) @@ [idx |-> idx], x, wid, [op |-> "mask", idx |-> idx, how |-> "list"])
Pick == bst.k # "none" /\ \E idx \in {<<2, 1>>, <<0, 2>>, <<1>>, <<0, 0>>} :
    /\ \A i \in 1..Len(idx) : idx[i] <= wid
    /\ LET x == CatB([i \in 1..Len(idx) |-> IF idx[i] = 0 THEN None ELSE GetB(bst, idx[i])]) IN
       Play(Rec("pick", x, FALSE) @@ [idx |-> idx, detach |-> TRUE], x, Len(idx),
            [op |-> "pick", idx |-> idx, detach |-> TRUE, np |-> FALSE])
Turn == bad = "" /\ cnt < MaxN /\ ~over /\ (Forward \/ Mask \/ Pick)
Done == /\ cnt = MaxN /\ bad = "" /\ ~over /\ over' = TRUE /\ (Gen => PrintT("@@" \o ToJson(hist)))
        /\ UNCHANGED <<sp, bad, bst, wid, cnt, hist, net>>
Next == Turn \/ Done
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
\* the batch is nothing but its slots
Consistent == bad = "" => IF bst.k = "none" THEN sp.none ELSE sp.val = States(bst, wid)
=============================================================================
