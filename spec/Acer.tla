-------------------------------- MODULE Acer --------------------------------
(***************************************************************************)
(* ACER over a tabular model: policy weights pi[s][a] (probability         *)
(* w / sum of w) and action values q[s][a].  Each update's gradient is     *)
(* compared with the Retrace recursion, the truncated importance weights   *)
(* with bias correction and the linearized trust region; the optimizer is  *)
(* an observer which replaces the tables by arbitrary new ones.            *)
(*                                                                         *)
(* Numbers are fixed point, 2^14 to one.                                   *)
(* cfg: na actions, ns states, g discount in quarters, tmax, nrep, rs      *)
(* (replay start size), trunc truncation in quarters (0: none), tr trust   *)
(* region, delta, pc, qc loss coefficients in quarters, norm, opc, beta in *)
(* sixteenths, online, replay, alpha (0: the average model follows at once,*)
(* 1: it stays), pi0, q0 initial tables                                    *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets

LnTab == <<0, 11357, 18000, 22713, 26369, 29356, 31882, 34070, 35999, 37726, 39287, 40713, 42024, 43238, 44369, 45426, 46419, 47356, 48242, 49082, 49881, 50644, 51372, 52069, 52738, 53381, 53999, 54595, 55170, 55725, 56262, 56783, 57287, 57776, 58251, 58712, 59161, 59598, 60024, 60439>>

RECURSIVE SumF(_, _)
SumF(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumF(f, n - 1)
W(w, n) == SumF(LAMBDA a : w[a], n)
\* x * n / d rounded to nearest, d > 0
Rat(x, n, d) == (2 * x * n + d) \div (2 * d)
V(c, pi, q) == Rat(SumF(LAMBDA a : pi[a] * q[a], c.na), 1, W(pi, c.na))

InitState(c) ==
    [pi |-> c.pi0, q |-> c.q0, avg |-> c.pi0, seg |-> << >>, cur |-> 0, trs |-> << >>, open |-> << >>,
     eps |-> {}, stored |-> 0, due |-> << >>]

\* x * min(1, rho), rho = (p/P) / (m/M)
Cut1(x, p, P, m, M) == IF p * M < P * m THEN Rat(x, p * M, P * m) ELSE x

\* one step of the recursion, from the end: e = [s, a, r, mu] (mu: weights, or <<>> on-policy)
\* returns [gp, gq]: gradients of the policy loss wrt the logits of state s, and of the value loss
PolicyGrad(c, pi, avg, mu, a, adv, qs, v) ==
    LET P == W(pi, c.na)
        M == IF mu = << >> THEN 1 ELSE W(mu, c.na)
        rhoadv ==     \* truncated importance weight times advantage
            IF mu = << >> THEN adv
            ELSE IF c.trunc > 0 /\ 4 * pi[a] * M > c.trunc * P * mu[a] THEN Rat(adv, c.trunc, 4)
            ELSE Rat(adv, pi[a] * M, P * mu[a])
        corr(b) ==    \* (1 - trunc / rho_b)+ pi_b (q_b - v)
            IF mu = << >> \/ c.trunc = 0 THEN 0
            ELSE LET n == 4 * pi[b] * M - c.trunc * mu[b] * P IN
                 IF n <= 0 THEN 0 ELSE Rat(qs[b] - v, n, 4 * P * M)
        g == [b \in 1..c.na |-> (IF b = a THEN 0 - rhoadv ELSE 0) - corr(b)]
        A == W(avg, c.na)
        kg == Rat(SumF(LAMBDA b : avg[b] * g[b], c.na), 1, A)
        k2 == SumF(LAMBDA b : avg[b] * avg[b], c.na)
        fac == IF c.tr /\ kg > c.delta THEN Rat(kg - c.delta, A * A, k2) ELSE 0
        z == [b \in 1..c.na |-> g[b] - Rat(fac, avg[b], A)]
        sz == SumF(LAMBDA b : z[b], c.na)
        lp(b) == LnTab[pi[b]] - LnTab[P]
        h == 0 - Rat(SumF(LAMBDA b : pi[b] * lp(b), c.na), 1, P)
    IN  [b \in 1..c.na |-> z[b] - Rat(sz, pi[b], P) + Rat(Rat(lp(b) + h, pi[b], P), c.beta, 16)]

\* fold over the steps from the last to the first: acc = [ret, opc, gp, gq]
RECURSIVE Back(_, _, _, _)
Back(c, st, es, acc) ==
    IF es = << >> THEN acc
    ELSE LET e == es[Len(es)]
             pi == st.pi[e.s]
             qs == st.q[e.s]
             v == V(c, pi, qs)
             ret == e.r + Rat(acc.ret, c.g, 4)
             opc == e.r + Rat(acc.opc, c.g, 4)
             adv == (IF c.opc THEN opc ELSE ret) - v
             gp == PolicyGrad(c, pi, st.avg[e.s], e.mu, e.a, adv, qs, v)
             q == qs[e.a]
             P == W(pi, c.na)
             nret == v + (IF e.mu = << >> THEN ret - q
                          ELSE Cut1(ret - q, pi[e.a], P, e.mu[e.a], W(e.mu, c.na)))
         IN  Back(c, st, SubSeq(es, 1, Len(es) - 1),
                  [ret |-> nret, opc |-> opc - q + v,
                   gp |-> [acc.gp EXCEPT ![e.s] = [b \in 1..c.na |-> @[b] + gp[b]]],
                   gq |-> [acc.gq EXCEPT ![e.s][e.a] = @ + q - ret]])

Zero(c) == [x \in 1..c.ns |-> [b \in 1..c.na |-> 0]]
Grads(c, st, es, R) ==
    LET acc == Back(c, st, es, [ret |-> R, opc |-> R, gp |-> Zero(c), gq |-> Zero(c)])
        n == IF c.norm THEN Len(es) ELSE 1
    IN  [gp |-> [x \in 1..c.ns |-> [b \in 1..c.na |-> Rat(acc.gp[x][b], c.pc, 4 * n)]],
         gq |-> [x \in 1..c.ns |-> [b \in 1..c.na |-> Rat(acc.gq[x][b], c.qc, 4 * n)]]]

Close(c, x, y) == Near(x, y, 80 + Abs(y) \div 256)
SameTab(c, X, Y) == \A x \in 1..c.ns, b \in 1..c.na : Close(c, X[x][b], Y[x][b])

\* what has to happen after the transition which ends a segment
Plan(c, st) == (IF c.online THEN <<"on">> ELSE << >>)
               \o (IF c.replay /\ st.stored >= c.rs THEN [i \in 1..(2 * c.nrep) |-> IF i % 2 = 1 THEN "sample" ELSE "off"]
                   ELSE << >>)

Trans(st, i) == st.trs[i]
Clause(c, st, ev) ==
    CASE ev.op = "act" ->
           IF st.due # << >> THEN "update-missing"
           ELSE IF ~(ev.a \in 1..c.na) THEN "action" ELSE ""
      [] ev.op = "obs" -> ""
      [] ev.op = "sample" ->
           IF st.due = << >> THEN "unexpected-replay"
           ELSE IF st.due[1] # "sample" THEN "unexpected-replay"
           ELSE IF ev.ids = << >> THEN "empty-sample"
           ELSE IF Len(ev.ids) > c.tmax THEN "sample-too-long"
           ELSE IF \E k \in 1..Len(ev.ids) : ~(ev.ids[k] \in 1..st.stored) THEN "sample-outside"
           ELSE IF \E k \in 2..Len(ev.ids) : ev.ids[k] # ev.ids[k - 1] + 1 \/ st.trs[ev.ids[k - 1]].ends
                THEN "sample-across-episodes"
           ELSE ""
      [] ev.op = "upd" ->
           IF st.due = << >> THEN "unexpected-update"
           ELSE IF st.due[1] = "on" THEN
                LET last == st.seg[Len(st.seg)]
                    R == IF last.d THEN 0 ELSE V(c, st.pi[last.nx], st.q[last.nx])
                    es == [k \in 1..Len(st.seg) |-> [st.seg[k] EXCEPT !.mu = << >>]]
                    G == Grads(c, st, es, R)
                IN  IF ~SameTab(c, ev.gq, G.gq) THEN "value-gradient"
                    ELSE IF ~SameTab(c, ev.gp, G.gp) THEN "policy-gradient" ELSE ""
           ELSE IF st.due[1] = "off" THEN
                LET es == [k \in 1..Len(st.open) |-> Trans(st, st.open[k])]
                    last == es[Len(es)]
                    R == IF last.d THEN 0 ELSE V(c, st.pi[last.nx], st.q[last.nx])
                    G == Grads(c, st, es, R)
                IN  IF ~SameTab(c, ev.gq, G.gq) THEN "replay-value-gradient"
                    ELSE IF ~SameTab(c, ev.gp, G.gp) THEN "replay-policy-gradient" ELSE ""
           ELSE "unexpected-update"
      [] ev.op = "end" -> IF st.due # << >> THEN "update-missing" ELSE ""
      [] OTHER -> "unknown-event"

Step(c, st, ev) ==
    CASE ev.op = "act" -> [st EXCEPT !.cur = [s |-> ev.s, a |-> ev.a]]
      [] ev.op = "obs" ->
           LET t == [s |-> st.cur.s, a |-> st.cur.a, r |-> ev.r, nx |-> ev.nx, d |-> ev.d,
                     mu |-> st.pi[st.cur.s], ends |-> ev.d \/ ev.reset]
               seg == Append(st.seg, t)
               n == Len(st.trs) + 1
               ends == t.ends
               closed == ends \/ Len(seg) = c.tmax
               st2 == [st EXCEPT !.seg = seg, !.trs = Append(@, t),
                                 !.stored = IF ends THEN n ELSE @]
           IN  IF closed THEN [st2 EXCEPT !.due = Plan(c, st2), !.seg = IF c.online THEN seg ELSE << >>]
               ELSE st2
      [] ev.op = "sample" -> [st EXCEPT !.open = ev.ids, !.due = Tail(@)]
      [] ev.op = "upd" ->
           [st EXCEPT !.pi = ev.pi, !.q = ev.q, !.avg = IF c.alpha = 0 THEN ev.pi ELSE @,
                      !.seg = IF st.due[1] = "on" THEN << >> ELSE @, !.due = Tail(@)]
      [] OTHER -> st
=============================================================================
