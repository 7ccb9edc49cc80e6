-------------------------------- MODULE TDMC --------------------------------
(***************************************************************************)
(* An abstract Q-learning update written the way the agents are: backward   *)
(* through the batch, gathering gradients.  All batches of up to MaxB        *)
(* entries of up to MaxN transitions over two states and two actions.  Mut   *)
(* names deliberately broken variants.                                       *)
(***************************************************************************)
EXTENDS TD, TLC, Json
CONSTANTS Kinds, MaxB, MaxN, Gen, Mut
VARIABLES c, batch, bad, done
Q  == <<<<2 * S, S>>, <<0 - S, S \div 2>>>>
TQ == <<<<S, 3 * S>>, <<2 * S, 0 - 2 * S>>>>
Cfg(k, cl, mn) == [kind |-> k, gn |-> 1, gd |-> 2, an |-> 1, ad |-> 2, eta |-> 1, clip |-> cl,
                   mean |-> mn, ln |-> 1, ld |-> 1]
Entries == { [s |-> s, a |-> a, rs |-> [i \in 1..n |-> i * S], s2 |-> s2,
              terms |-> [i \in 1..n |-> i = n /\ t], w |-> w] :
             s \in 1..2, a \in 1..2, n \in 1..MaxN, s2 \in 1..2, t \in BOOLEAN, w \in {S \div 2, S} }

\* the agent's side
AMax(row) == IF row[1] >= row[2] THEN 1 ELSE 2
Half(x, k) == IF k = 0 THEN x ELSE x \div (2^k)
ARet(e) == IF Len(e.rs) = 1 THEN e.rs[1] ELSE e.rs[1] + e.rs[2] \div 2
ATarget(e) ==
    LET nx == IF c.kind \in {"DoubleDQN", "DoublePAL"}
              THEN (IF Mut = "swap" THEN Q[e.s2][AMax(TQ[e.s2])] ELSE TQ[e.s2][AMax(Q[e.s2])])
              ELSE TQ[e.s2][AMax(TQ[e.s2])]
        bt == IF e.terms[Len(e.terms)] /\ Mut # "noterm" THEN 0
              ELSE Half(nx, IF Mut = "onestep" THEN 1 ELSE Len(e.rs))
        t == ARet(e) + bt
        adv == TQ[e.s][e.a] - TQ[e.s][AMax(TQ[e.s])]
        adv2 == TQ[e.s2][e.a] - TQ[e.s2][AMax(TQ[e.s2])]
    IN CASE c.kind = "AL" -> t + adv \div 2
         [] c.kind \in {"PAL", "DoublePAL"} -> t + (IF adv > adv2 THEN adv ELSE adv2) \div 2
         [] c.kind = "DPPGreedy" -> t + adv
         [] OTHER -> t
RECURSIVE Grad(_, _, _)
Grad(i, x, a) ==
    IF i = 0 THEN 0
    ELSE LET e == batch[i]
             d == Q[e.s][e.a] - ATarget(e)
             g == IF c.clip THEN (IF d > S THEN S ELSE IF d < 0 - S THEN 0 - S ELSE d) ELSE d
             w == IF Mut = "noweight" THEN g ELSE IF e.w = S THEN g ELSE g \div 2
         IN Grad(i - 1, x, a) + (IF e.s = x /\ e.a = a THEN w ELSE 0)
QA == [x \in 1..2 |-> [a \in 1..2 |->
          Q[x][a] - (IF c.mean THEN Grad(Len(batch), x, a) \div Len(batch) ELSE Grad(Len(batch), x, a))]]
Ev == [op |-> "update", q |-> Q, tq |-> TQ, tqa |-> TQ, qa |-> QA, batch |-> batch, haserr |-> TRUE,
       errs |-> [i \in 1..Len(batch) |->
            LET d == Q[batch[i].s][batch[i].a] - ATarget(batch[i]) IN IF d < 0 THEN 0 - d ELSE d]]

Init == /\ \E k \in Kinds : \E cl, mn \in BOOLEAN : c = Cfg(k, cl, mn)
        /\ batch = <<>> /\ bad = "" /\ done = FALSE
Choose == /\ ~done /\ Len(batch) < MaxB
          /\ \E e \in Entries : batch' = Append(batch, e)
          /\ UNCHANGED <<c, bad, done>>
Update == /\ ~done /\ batch # <<>> /\ done' = TRUE
          /\ bad' = Clause(c, InitState(c), Ev)
          /\ (Gen => PrintT("@@" \o ToJson([kind |-> c.kind, clip |-> c.clip, mean |-> c.mean,
                     batch |-> [i \in 1..Len(batch) |->
                        [s |-> batch[i].s, a |-> batch[i].a, n |-> Len(batch[i].rs), s2 |-> batch[i].s2,
                         term |-> Terminal(batch[i]), w |-> batch[i].w]]])))
          /\ UNCHANGED <<c, batch>>
Next == Choose \/ Update
Spec == Init /\ [][Next]_<<c, batch, bad, done>>
Conforms == bad = ""
\* a single unweighted, unclipped step of rate one lands on the target
Lands == (Len(batch) = 1 /\ ~c.clip /\ batch[1].w = S) =>
            Updated(c, Q, TQ, batch)[batch[1].s][batch[1].a] = Target(c, Q, TQ, batch[1])
\* without a bootstrap the next state does not matter (plain and double agents)
NoBootstrap == \A i \in 1..Len(batch) : (Terminal(batch[i]) /\ c.kind \in {"DQN", "DoubleDQN", "AL"}) =>
            \A y \in 1..2 : Target(c, Q, TQ, batch[i]) = Target(c, Q, TQ, [batch[i] EXCEPT !.s2 = y])
=============================================================================
