------------------------------ MODULE CriticMC ------------------------------
(***************************************************************************)
(* An abstract actor-critic update for all batches of up to MaxB entries     *)
(* over two states; Mut names deliberately broken variants.                  *)
(***************************************************************************)
EXTENDS Critic, TLC, Json
CONSTANTS Fam, MaxB, MaxN, Gen, Mut
VARIABLES batch, bad, done
C == [fam |-> Fam, gn |-> 1, gd |-> 2, ln |-> 1, ld |-> 4, shift |-> S \div 4, noise |-> S \div 2,
      temp |-> S \div 2, adapt |-> FALSE, htarget |-> 0 - S]
B0 == [u1 |-> <<S, 2 * S>>, v1 |-> <<S, 0 - S>>, u2 |-> <<2 * S, 0>>, v2 |-> <<0 - S, S>>,
       tu1 |-> <<0 - S, S>>, tv1 |-> <<2 * S, S>>, tu2 |-> <<S, 3 * S>>, tv2 |-> <<0 - S, 0 - 2 * S>>,
       m |-> <<S \div 2, 0 - S>>, tm |-> <<S, 0 - S \div 2>>, lp |-> <<0 - S, S>>]
Entries == { [s |-> s, a |-> a, rs |-> [i \in 1..n |-> i * S], s2 |-> s2, terms |-> [i \in 1..n |-> i = n /\ t]] :
             s \in 1..2, a \in {0 - S, S \div 2}, n \in 1..MaxN, s2 \in 1..2, t \in BOOLEAN }
HalfOf(x) == x \div 2
Prod(x, y) == ((x \div 8) * (y \div 8)) \div 256
RECURSIVE Disc(_, _)
Disc(x, k) == IF k = 0 THEN x ELSE Disc(HalfOf(x), k - 1)
ABoot(s) ==
    LET a == CASE Fam = "ddpg" -> B0.tm[s] [] Fam = "td3" -> B0.tm[s] + C.shift [] OTHER -> B0.m[s] + C.noise
        q1 == B0.tu1[s] + Prod(B0.tv1[s], a)
        q2 == B0.tu2[s] + Prod(B0.tv2[s], a)
        mn == IF Mut = "max" THEN (IF q1 > q2 THEN q1 ELSE q2) ELSE IF q1 < q2 THEN q1 ELSE q2
    IN CASE Fam = "ddpg" -> q1 [] Fam = "td3" -> mn
         [] OTHER -> IF Mut = "noentropy" THEN mn ELSE mn - HalfOf(B0.lp[s])
ATarget(e) ==
    (IF Len(e.rs) = 1 THEN e.rs[1] ELSE e.rs[1] + HalfOf(e.rs[2]))
    + (IF e.terms[Len(e.terms)] /\ Mut # "noterm" THEN 0
       ELSE Disc(ABoot(e.s2), IF Mut = "gamma" THEN 1 ELSE Len(e.rs)))
RECURSIVE GradU(_, _, _, _), GradV(_, _, _, _)
D(u, v, e) == (IF Fam = "sac" THEN 1 ELSE 2) * (u[e.s] + Prod(v[e.s], e.a) - ATarget(e))
GradU(i, s, u, v) == IF i = 0 THEN 0 ELSE GradU(i - 1, s, u, v) + (IF batch[i].s = s THEN D(u, v, batch[i]) ELSE 0)
GradV(i, s, u, v) == IF i = 0 THEN 0
    ELSE GradV(i - 1, s, u, v) + (IF batch[i].s = s THEN Prod(D(u, v, batch[i]), batch[i].a) ELSE 0)
N == Len(batch)
U(u, v) == [s \in 1..2 |-> u[s] - GradU(N, s, u, v) \div (4 * N)]
V(u, v) == [s \in 1..2 |-> v[s] - GradV(N, s, u, v) \div (4 * N)]
A1 == [B0 EXCEPT !.u1 = U(B0.u1, B0.v1), !.v1 = V(B0.u1, B0.v1),
                 !.u2 = IF Fam = "ddpg" THEN @ ELSE U(B0.u2, B0.v2), !.v2 = IF Fam = "ddpg" THEN @ ELSE V(B0.u2, B0.v2)]
Cnt(s) == Count(batch, s)
Old == IF Mut = "oldcritic" THEN B0 ELSE A1
Which(s) == IF Fam # "sac" THEN Old.v1[s]
            ELSE IF Old.u1[s] + Prod(Old.v1[s], B0.m[s] + C.noise) < Old.u2[s] + Prod(Old.v2[s], B0.m[s] + C.noise)
                 THEN Old.v1[s] ELSE Old.v2[s]
A2 == [A1 EXCEPT !.m = [s \in 1..2 |-> B0.m[s] + (Cnt(s) * Which(s)) \div (4 * N)],
                 !.lp = [s \in 1..2 |-> IF Fam = "sac" THEN B0.lp[s] - (Cnt(s) * C.temp) \div (4 * N) ELSE B0.lp[s]]]
Ev == [op |-> "update", b |-> B0, a |-> A2, batch |-> batch, temp0 |-> C.temp, temp1 |-> C.temp]
Init == batch = <<>> /\ bad = "" /\ done = FALSE
Choose == ~done /\ Len(batch) < MaxB /\ (\E e \in Entries : batch' = Append(batch, e)) /\ UNCHANGED <<bad, done>>
Update == /\ ~done /\ batch # <<>> /\ done' = TRUE /\ bad' = Clause(C, InitState(C), Ev)
          /\ (Gen => PrintT("@@" \o ToJson([i \in 1..N |-> [s |-> batch[i].s, a |-> batch[i].a, n |-> Len(batch[i].rs),
                                            s2 |-> batch[i].s2, term |-> Terminal(batch[i])]])))
          /\ UNCHANGED batch
Next == Choose \/ Update
Spec == Init /\ [][Next]_<<batch, bad, done>>
Conforms == bad = ""
\* the target never exceeds what either critic promises
Pessimistic == Fam = "td3" => \A i \in 1..N : \A b2 \in {[B0 EXCEPT !.tu1 = B0.tu2, !.tv1 = B0.tv2],
                                                         [B0 EXCEPT !.tu2 = B0.tu1, !.tv2 = B0.tv1]} :
                   Target(C, B0, batch[i]) <= Target(C, b2, batch[i])
NoBootstrap == \A i \in 1..N : Terminal(batch[i]) =>
    Target(C, B0, batch[i]) = Return(C, batch[i].rs)
=============================================================================
