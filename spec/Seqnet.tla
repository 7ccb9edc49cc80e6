------------------------------- MODULE Seqnet -------------------------------
(***************************************************************************)
(* Recurrent containers and the handling of batched recurrent states.        *)
(* A network is a tree: "rnn" (layers of relu(a h + b x + k)), "cell" (a       *)
(* module with a pair as its state), "lin" (a x + k), "mix" (a weighted sum     *)
(* of a tuple), "seq" (layers one after the other), "br" (branches on the        *)
(* same input).  Each slot of a batch has its own state; the rule is that a       *)
(* batched operation is the same operation on every slot by itself.                *)
(* s = [none, val, grad]: no state yet, the state of each slot, whether it is        *)
(* still attached to the computation that produced it.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Max0(x) == IF x > 0 THEN x ELSE 0
IsRec(n) == n.t \in {"rnn", "cell", "seq", "br"}

RECURSIVE Fresh(_), FreshKids(_, _)
FreshKids(ks, i) == IF i > Len(ks) THEN <<>>
                    ELSE (IF IsRec(ks[i]) THEN <<Fresh(ks[i])>> ELSE <<>>) \o FreshKids(ks, i + 1)
Fresh(n) == CASE n.t = "rnn" -> [i \in 1..Len(n.w) |-> 0]
              [] n.t = "cell" -> <<<<0>>, <<0>>>>
              [] OTHER -> FreshKids(n.kids, 1)

RECURSIVE RnnStep(_, _, _, _), MixSum(_, _, _), One(_, _, _), SeqStep(_, _, _, _, _, _), BrStep(_, _, _, _, _, _)
RnnStep(w, h, x, i) ==
    IF i > Len(w) THEN <<>>
    ELSE LET y == Max0(w[i].a * h[i] + w[i].b * x + w[i].k) IN <<y>> \o RnnStep(w, h, y, i + 1)
MixSum(w, x, i) == IF i > Len(w) THEN 0 ELSE w[i] * x[i] + MixSum(w, x, i + 1)
\* the state list j runs over the recurrent children only
SeqStep(ks, h, x, i, j, acc) ==
    IF i > Len(ks) THEN <<x, acc>>
    ELSE IF IsRec(ks[i]) THEN LET r == One(ks[i], h[j], x) IN SeqStep(ks, h, r[1], i + 1, j + 1, Append(acc, r[2]))
    ELSE SeqStep(ks, h, One(ks[i], <<>>, x)[1], i + 1, j, acc)
BrStep(ks, h, x, i, ys, acc) ==
    IF i > Len(ks) THEN <<ys, acc>>
    ELSE LET r == One(ks[i], h[i], x) IN BrStep(ks, h, x, i + 1, Append(ys, r[1]), Append(acc, r[2]))
\* one step of one slot: <<output, new state>>
One(n, h, x) ==
    CASE n.t = "rnn" -> LET q == RnnStep(n.w, h, x, 1) IN <<q[Len(q)], q>>
      [] n.t = "cell" -> LET c1 == n.a * h[2][1] + x
                             h1 == n.b * c1 + h[1][1] + n.k IN <<h1, <<<<h1>>, <<c1>>>>>>
      [] n.t = "lin" -> <<n.a * x + n.k, <<>>>>
      [] n.t = "mix" -> <<MixSum(n.w, x, 1), <<>>>>
      [] n.t = "seq" -> SeqStep(n.kids, h, x, 1, 1, <<>>)
      [] n.t = "br" -> BrStep(n.kids, h, x, 1, <<>>, <<>>)

RECURSIVE RunFrom(_, _, _, _, _)
RunFrom(n, h, xs, i, ys) ==
    IF i > Len(xs) THEN <<ys, h>>
    ELSE LET r == One(n, h, xs[i]) IN RunFrom(n, r[2], xs, i + 1, Append(ys, r[1]))
\* a whole sequence of one slot: <<outputs, last state>>
Run(n, h, xs) == RunFrom(n, h, xs, 1, <<>>)

\* time axis first, the order of packed sequences (longest sequence first)
RECURSIVE TimeFirst(_, _)
RECURSIVE Col(_, _, _)
Col(qs, t, i) == IF i > Len(qs) THEN <<>> ELSE (IF t <= Len(qs[i]) THEN <<qs[i][t]>> ELSE <<>>) \o Col(qs, t, i + 1)
TimeFirst(qs, t) == IF \A i \in 1..Len(qs) : t > Len(qs[i]) THEN <<>> ELSE Col(qs, t, 1) \o TimeFirst(qs, t + 1)

InitState(c) == [none |-> TRUE, val |-> <<>>, grad |-> FALSE]
Slots(c, s, k) == IF s.none THEN [i \in 1..k |-> Fresh(c.net)] ELSE s.val
Results(c, s, xs) == LET h == Slots(c, s, Len(xs)) IN [i \in 1..Len(xs) |-> Run(c.net, h[i], xs[i])]
RECURSIVE Tensors(_)
Tensors(n) == CASE n.t \in {"rnn", "cell"} -> TRUE
                [] n.t \in {"seq", "br"} -> \E i \in 1..Len(n.kids) : Tensors(n.kids[i])
                [] OTHER -> FALSE

Picked(c, s, idx) == [i \in 1..Len(idx) |-> IF idx[i] = 0 \/ s.none THEN Fresh(c.net) ELSE s.val[idx[i]]]
AllNone(s, idx) == s.none \/ \A i \in 1..Len(idx) : idx[i] = 0

Step(c, s, ev) ==
  CASE ev.op = "forward" ->
        LET r == Results(c, s, ev.xs) IN [none |-> FALSE, val |-> [i \in 1..Len(r) |-> r[i][2]], grad |-> Tensors(c.net)]
    [] ev.op = "mask" ->
        IF s.none THEN s
        ELSE [s EXCEPT !.val = [i \in 1..Len(@) |-> IF \E k \in 1..Len(ev.idx) : ev.idx[k] = i THEN Fresh(c.net) ELSE @[i]]]
    [] ev.op = "pick" ->
        IF AllNone(s, ev.idx) THEN InitState(c)
        ELSE [none |-> FALSE, val |-> Picked(c, s, ev.idx), grad |-> s.grad /\ ~ev.detach]
    [] ev.op = "take" ->
        IF s.none THEN s ELSE [none |-> FALSE, val |-> Picked(c, s, ev.idx), grad |-> s.grad /\ ~ev.detach]
    [] ev.op = "detach" -> [s EXCEPT !.grad = FALSE]
    [] ev.op = "numpy" -> [s EXCEPT !.grad = FALSE]
    [] OTHER -> s

\* what is left of the old state object, and the new one
StateClause(c, s, ev) ==
    LET n == Step(c, s, ev) IN
    IF ev.none # n.none THEN "state-missing-or-invented"
    ELSE IF n.none THEN ""
    ELSE IF Len(ev.state) # Len(n.val) THEN "wrong-number-of-states"
    ELSE IF ev.state # n.val THEN
        (IF ev.op = "forward" THEN "wrong-state-after-forward" ELSE "wrong-state")
    ELSE IF ~s.none /\ ev.before # s.val THEN "given-state-modified"
    ELSE IF ev.grad # (IF n.grad THEN 1 ELSE 0) THEN (IF n.grad THEN "state-detached" ELSE "state-not-detached") ELSE ""

Clause(c, s, ev) ==
  CASE ev.op = "forward" ->
        LET r == Results(c, s, ev.xs)
            ys == [i \in 1..Len(r) |-> r[i][1]] IN
        IF ev.how = "pack" /\ ev.flatx # TimeFirst(ev.xs, 1) THEN "flattened-in-another-order"
        ELSE IF ev.how = "pack" /\ ev.flaty # TimeFirst(ys, 1) THEN "wrong-outputs"
        ELSE IF ev.how # "pack" /\ ev.ys # ys THEN "wrong-outputs"
        ELSE StateClause(c, s, ev)
    [] ev.op \in {"mask", "pick", "take", "detach", "numpy"} -> StateClause(c, s, ev)
    [] OTHER -> "unknown-event"
=============================================================================
