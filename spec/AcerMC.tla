------------------------------- MODULE AcerMC -------------------------------
(***************************************************************************)
(* An abstract ACER learner: it keeps the behaviour weights next to each   *)
(* stored transition, and computes the corrected returns by the expanded   *)
(* Retrace sum (products of truncated ratios) instead of the backward      *)
(* recursion, and the policy gradient action by action.  Every sequence of *)
(* acts, observations, table replacements and samples of bounded length.   *)
(* Mut names deliberately broken variants.                                 *)
(***************************************************************************)
EXTENDS Acer, TLC, Json
CONSTANTS MaxT, Mut, Truncs
VARIABLES c, st, past, buf, n, queue, sent, bad
vars == <<c, st, past, buf, n, queue, sent, bad>>

Pis == { <<<<1, 1>>, <<3, 1>>>>, <<<<1, 3>>, <<1, 1>>>> }
Qs == <<<<2 * S, S>>, <<0 - S, S \div 2>>>>
Cfg(tc, opc, online) ==
    [na |-> 2, ns |-> 2, g |-> 2, tmax |-> 2, nrep |-> 1, rs |-> 1, trunc |-> tc, tr |-> FALSE, delta |-> 0,
     pc |-> 4, qc |-> 4, norm |-> TRUE, opc |-> opc, beta |-> 0, online |-> online, replay |-> TRUE, alpha |-> 0,
     pi0 |-> <<<<1, 1>>, <<3, 1>>>>, q0 |-> Qs]

\* ---- the learner's arithmetic, expanded (at most two steps in a segment)
P(x, a) == Rat(S, st.pi[x][a], st.pi[x][1] + st.pi[x][2])          \* probability, fixed point
AV(x) == FMul(P(x, 1), st.q[x][1]) + FMul(P(x, 2), st.q[x][2])
Ratio(e, a) == IF e.mu = <<>> THEN S
               ELSE Rat(S, st.pi[e.s][a] * (e.mu[1] + e.mu[2]), (st.pi[e.s][1] + st.pi[e.s][2]) * e.mu[a])
CutR(e) == IF Mut = "nocut" THEN Ratio(e, e.a) ELSE Min2(S, Ratio(e, e.a))
Boot(es) == LET l == es[Len(es)] IN IF l.d /\ Mut # "boot" THEN 0 ELSE AV(l.nx)
\* value carried past step 2 back to step 1, with weight w on its temporal difference
Ret(es, i, w) == LET last == es[Len(es)] IN
    IF i = Len(es) THEN last.r + Boot(es) \div 2
    ELSE es[1].r + (AV(es[2].s) + FMul(w, es[2].r + Boot(es) \div 2 - st.q[es[2].s][es[2].a])) \div 2
ARet(es, i) == Ret(es, i, CutR(es[Len(es)]))
AOpc(es, i) == Ret(es, i, S)
Adv(es, i) == (IF c.opc THEN AOpc(es, i) ELSE ARet(es, i)) - AV(es[i].s)
Trunc(e, x) == IF c.trunc = 0 \/ e.mu = <<>> THEN x ELSE Min2(x, c.trunc * (S \div 4))
Corr(e, b) == IF e.mu = <<>> \/ c.trunc = 0 \/ Mut = "nocorr" THEN 0
              ELSE LET w == P(e.s, b) - Rat(c.trunc * (S \div 4), e.mu[b], e.mu[1] + e.mu[2])
                   IN  IF w <= 0 THEN 0 ELSE FMul(w, st.q[e.s][b] - AV(e.s))
Pull(es, i, b) == (IF b = es[i].a THEN FMul(Trunc(es[i], Ratio(es[i], b)), Adv(es, i)) ELSE 0) + Corr(es[i], b)
GP(es, i, b) == 0 - Pull(es, i, b) + FMul(P(es[i].s, b), Pull(es, i, 1) + Pull(es, i, 2))
GQ(es, i, b) == IF b = es[i].a THEN st.q[es[i].s][b] - ARet(es, i) ELSE 0
Tab(F(_, _, _), es) == [x \in 1..2 |-> [b \in 1..2 |->
    SumF(LAMBDA i : IF es[i].s = x THEN F(es, i, b) ELSE 0, Len(es)) \div (IF Mut = "nonorm" THEN 1 ELSE Len(es))]]

Emit(ev) == /\ bad' = IF bad # "" THEN bad ELSE Clause(c, st, ev)
            /\ st' = IF bad' = "" THEN Step(c, st, ev) ELSE st

Init == /\ \E tc \in Truncs : \E o, l \in BOOLEAN : c = Cfg(tc, o, l)
        /\ st = InitState(c) /\ past = <<>> /\ buf = <<>> /\ n = 0 /\ queue = <<>> /\ sent = <<>> /\ bad = ""

Act == /\ queue = <<>> /\ n < MaxT /\ bad = "" /\ sent = <<>>
       /\ \E x \in 1..2, a \in 1..2, y \in 1..2, r \in {0 - S, 2 * S}, d \in BOOLEAN, rs \in BOOLEAN :
            LET e1 == [op |-> "act", s |-> x, a |-> a]
                e2 == [op |-> "obs", r |-> r, nx |-> y, d |-> d, reset |-> rs]
                t == [s |-> x, a |-> a, r |-> r, nx |-> y, d |-> d, mu |-> st.pi[x]]
                b2 == Append(buf, [t |-> t, ends |-> d \/ rs])
                ends == d \/ rs \/ Len(past) + 1 = c.tmax
            IN  /\ n > 0 => (buf[n].ends \/ buf[n].t.nx = x)
                /\ bad' = Clause(c, st, e1)
                /\ st' = Step(c, Step(c, st, e1), e2)
                /\ buf' = b2
                /\ past' = IF ends /\ ~c.online THEN <<>> ELSE Append(past, [t EXCEPT !.mu = <<>>])
                /\ queue' = IF ~ends THEN <<>>
                            ELSE (IF c.online THEN <<"on">> ELSE <<>>)
                                 \o (IF (\E i \in 1..Len(b2) : b2[i].ends) /\ Mut # "skip" THEN <<"sample", "off">> ELSE <<>>)
                /\ n' = n + 1
       /\ UNCHANGED <<c, sent>>
Update(es, rest) ==
    \E pi \in Pis : LET ev == [op |-> "upd", gp |-> Tab(GP, es), gq |-> Tab(GQ, es), pi |-> pi, q |-> st.q]
                    IN  Emit(ev) /\ queue' = rest
On == /\ queue # <<>> /\ bad = "" /\ queue[1] = "on"
      /\ Update(past, Tail(queue)) /\ past' = <<>> /\ UNCHANGED <<c, buf, n, sent>>
Smp == /\ queue # <<>> /\ bad = "" /\ queue[1] = "sample"
       /\ \E i \in 1..Len(buf), l \in 1..2 :
            /\ i + l - 1 <= Len(buf)
            /\ \A k \in i..(i + l - 2) : ~buf[k].ends
            /\ \E k \in (i + l - 1)..Len(buf) : buf[k].ends
            /\ sent' = [k \in 1..l |-> i + k - 1]
            /\ Emit([op |-> "sample", ids |-> sent'])
       /\ queue' = Tail(queue) /\ UNCHANGED <<c, past, buf, n>>
Off == /\ queue # <<>> /\ bad = "" /\ queue[1] = "off"
       /\ Update([k \in 1..Len(sent) |-> IF Mut = "mu" THEN [buf[sent[k]].t EXCEPT !.mu = st.pi[buf[sent[k]].t.s]]
                                         ELSE buf[sent[k]].t], Tail(queue))
       /\ sent' = <<>> /\ UNCHANGED <<c, past, buf, n>>
Fin == /\ queue = <<>> /\ bad = "" /\ n = MaxT /\ Emit([op |-> "end"]) /\ UNCHANGED <<c, past, buf, n, queue, sent>>
Next == Act \/ On \/ Smp \/ Off \/ Fin
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
\* on the current behaviour policy, with no truncation biting, the correction vanishes
\* and each logit row's gradient sums to zero
Balanced == \A i \in 1..Len(buf) :
    LET G == Grads(c, st, <<buf[i].t>>, 0) IN Abs(G.gp[buf[i].t.s][1] + G.gp[buf[i].t.s][2]) <= 4
OnPolicyNeutral == \A i \in 1..Len(buf) :
    (buf[i].t.mu = st.pi[buf[i].t.s] /\ c.trunc # 0 /\ c.trunc >= 4)
      => Grads(c, st, <<buf[i].t>>, 0) = Grads(c, st, <<[buf[i].t EXCEPT !.mu = <<>>]>>, 0)
=============================================================================
