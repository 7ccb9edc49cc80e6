--------------------------------- MODULE Gae ---------------------------------
(***************************************************************************)
(* PPO and TRPO: transitions are collected over several environments until   *)
(* the update interval is reached, become one data set with generalized      *)
(* advantages per episode segment, are visited in minibatches, and are then  *)
(* dropped.  The model is a table: value V[id] of every observation, a log-   *)
(* probability per observation and action.                                    *)
(* c = [algo "ppo"|"trpo", n, ui, mb, epochs, rec, V (sequence, by id),       *)
(*      gn, gd, ln, ld  discount and lambda, std  standardize advantages,     *)
(*      vn, vd  value loss coefficient, eps  ratio clip, veps  value clip     *)
(*      (0: none), norm  observations are normalized, maxkl]                  *)
(* Events: act, observe, norm [ids], step [items [id, mult, gv, gl],          *)
(* stray, lk, dv], kl [p, q], end.  Gradients are multiplied by the          *)
(* minibatch size; lk: log2 of the current probability ratio, dv: change of   *)
(* the value predictions since the data set was made.                         *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets

InitState(c) ==
    [pc |-> "idle", obs |-> <<>>, a |-> <<>>,
     cur |-> [e \in 1..c.n |-> <<>>],      \* running episode segment per environment
     mem |-> <<>>,                         \* finished segments
     upd |-> FALSE, ds |-> <<>>, visits |-> <<>>, m |-> 0, normed |-> FALSE, kl |-> FALSE]

G(c, x) == Mul(x, c.gn, c.gd)
GL(c, x) == Mul(Mul(x, c.gn, c.gd), c.ln, c.ld)
\* --- advantages -----------------------------------------------------------
TdErr(c, t) == t.r + (IF t.done THEN 0 ELSE G(c, c.V[t.nid])) - c.V[t.id]
RECURSIVE Advs(_, _)
Advs(c, ep) ==
    IF ep = <<>> THEN <<>>
    ELSE LET rest == Advs(c, Tail(ep))
             nxt == IF rest = <<>> THEN 0 ELSE rest[1]
         IN <<TdErr(c, Head(ep)) + GL(c, nxt)>> \o rest
RECURSIVE Data(_, _)
Data(c, eps) ==
    IF eps = <<>> THEN <<>>
    ELSE LET ep == Head(eps)
             adv == Advs(c, ep)
         IN [i \in 1..Len(ep) |-> [id |-> ep[i].id, a |-> ep[i].a, adv |-> adv[i]]] \o Data(c, Tail(eps))
RECURSIVE SizeOf(_)
SizeOf(eps) == IF eps = <<>> THEN 0 ELSE Len(Head(eps)) + SizeOf(Tail(eps))
Open(s) == SelectSeq([e \in 1..Len(s.cur) |-> s.cur[e]], LAMBDA x : x # <<>>)

\* --- standardization: units of 2^-10 -----------------------------------------
RECURSIVE ISqrt(_, _, _)
ISqrt(x, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET mid == (lo + hi) \div 2 IN
                         IF mid * mid <= x THEN ISqrt(x, mid, hi) ELSE ISqrt(x, lo, mid)
MeanOf(ds) == LET n == Len(ds) IN SumSeq([i \in 1..n |-> ds[i].adv]) \div n
StdOf(ds) ==
    LET n == Len(ds)
        mu == MeanOf(ds)
        sq == [i \in 1..n |-> LET d == (ds[i].adv - mu) \div 16 IN (d * d) \div n]
    IN  ISqrt(SumSeq(sq), 0, 40000) * 16                \* back in units of S
\* advantage as used in the loss; <<value, tolerance>>
Used(c, ds, adv) ==
    IF ~c.std THEN <<adv, 8>>
    ELSE LET sd == StdOf(ds)
             v == Mul((adv - MeanOf(ds)), 1024, Max2(sd \div 16, 1))
         IN <<v, 64 + (Abs(v) * 40) \div Max2(sd \div 16, 1)>>
Judged(c, ds) == ~c.std \/ StdOf(ds) > S \div 8

\* --- loss gradients ------------------------------------------------------------
Ratio(x, lk) == IF lk = 1 THEN 2 * x ELSE IF lk = 0 THEN x ELSE x \div 2
PolGrad(c, adv, lk) ==
    LET r == Ratio(S, lk) IN
    IF (adv > 0 /\ r > S + c.eps) \/ (adv < 0 /\ r < S - c.eps) THEN 0 ELSE 0 - Ratio(adv, lk)
ValGrad(c, v, t, dv) ==
    LET now == v + dv
        cl == Clamp(now, v - c.veps, v + c.veps)
    IN  IF c.veps = 0 \/ cl = now \/ Abs(now - t) >= Abs(cl - t) THEN Mul(2 * (now - t), c.vn, c.vd) ELSE 0
Borderline(c, v, t, dv) ==
    LET cl == Clamp(v + dv, v - c.veps, v + c.veps) IN
    c.veps # 0 /\ cl # v + dv /\ Near(Abs(v + dv - t), Abs(cl - t), 16)

Entry(ds, id) == ds[CHOOSE i \in 1..Len(ds) : ds[i].id = id]
Known(ds, id) == \E i \in 1..Len(ds) : ds[i].id = id
ItemOK(c, ds, ev, it) ==
    LET e == Entry(ds, it.id)
        v == c.V[it.id]
        u == Used(c, ds, e.adv)
        g == it.mult * PolGrad(c, u[1], ev.lk)
    IN  IF \E b \in 1..Len(it.gl) : b # e.a + 1 /\ it.gl[b] # 0 THEN "wrong-action-in-loss"
        ELSE IF c.algo = "ppo" /\ Judged(c, ds) /\ Abs(u[1]) > u[2]
                /\ ~Near(it.gl[e.a + 1], g, 2 * it.mult * u[2] + 8) THEN "wrong-advantage"
        ELSE IF ~Borderline(c, v, e.adv + v, ev.dv)
                /\ ~Near(it.gv, it.mult * ValGrad(c, v, e.adv + v, ev.dv), 24 * it.mult) THEN "wrong-value-target"
        ELSE ""
FirstBad(c, s, ev) ==
    LET bad == { i \in 1..Len(ev.items) : ItemOK(c, s.ds, ev, ev.items[i]) # "" } IN
    IF bad = {} THEN "" ELSE ItemOK(c, s.ds, ev, ev.items[CHOOSE i \in bad : TRUE])
Total(ev) == SumSeq([i \in 1..Len(ev.items) |-> ev.items[i].mult])

\* --- KL divergence of two rows of probabilities ---------------------------------
LnRatio(p, q) == IF p >= q THEN LnF(Mul(S, p, Max2(q, 1))) ELSE 0 - LnF(Mul(S, q, Max2(p, 1)))
KlRow(p, q) == SumSeq([i \in 1..Len(p) |-> FMul(p[i], LnRatio(p[i], q[i]))])
\* p, q: policy tables before and after the update, by observation
MeanKl(s, ev) == SumSeq([i \in 1..Len(s.ds) |-> KlRow(ev.p[s.ds[i].id], ev.q[s.ds[i].id])]) \div Len(s.ds)
\* gain of the new policy over the old on the surrogate objective, times the size
Gain(c, s, ev) == SumSeq([i \in 1..Len(s.ds) |->
    LET e == s.ds[i]
        r == Mul(S, ev.q[e.id][e.a + 1], Max2(ev.p[e.id][e.a + 1], 1))
    IN FMul(Used(c, s.ds, e.adv)[1], r - S)])
Foreign(s, ev) == { i \in 1..Len(ev.p) : ~Known(s.ds, i)
                    /\ \E b \in 1..Len(ev.p[i]) : ~Near(ev.p[i][b], ev.q[i][b], 2) }

\* --- rules ------------------------------------------------------------------------
Ready(c, s) == SizeOf(s.mem) + SizeOf(Open(s)) >= c.ui
Counts(s) == { s.visits[i] : i \in 1..Len(s.visits) }
VisitsOK(c, s) ==
    LET L == Len(s.ds) IN
    IF ~c.rec
    THEN /\ s.m >= L * c.epochs /\ s.m < L * c.epochs + c.mb
         /\ \A x \in Counts(s) : x = s.m \div L \/ x = (s.m + L - 1) \div L
    ELSE /\ s.m = c.epochs * (L \div c.mb) * c.mb
         /\ \A x \in Counts(s) : x <= c.epochs

Clause(c, s, ev) ==
  CASE ev.op = "act" -> IF s.pc # "idle" THEN "unexpected-act" ELSE ""
    [] ev.op = "observe" -> IF s.pc # "acted" THEN "unexpected-observe" ELSE ""
    [] ev.op = "norm" ->
        IF ~s.upd THEN "statistics-updated-outside-update"
        ELSE IF s.m > 0 \/ s.kl \/ s.normed THEN "statistics-updated-at-the-wrong-time"
        ELSE IF Len(ev.ids) # Len(s.ds) \/ { ev.ids[i] : i \in 1..Len(ev.ids) } # { s.ds[i].id : i \in 1..Len(s.ds) }
             THEN "statistics-not-over-each-observation-once"
        ELSE ""
    [] ev.op = "step" ->
        IF ~s.upd THEN "update-before-the-interval"
        ELSE IF c.norm /\ ~s.normed THEN "statistics-not-updated"
        ELSE IF \E i \in 1..Len(ev.items) : ~Known(s.ds, ev.items[i].id) THEN "foreign-transition-used"
        ELSE IF ev.stray THEN "gradient-outside-minibatch"
        ELSE IF Total(ev) # c.mb THEN "wrong-minibatch-size"
        ELSE FirstBad(c, s, ev)
    [] ev.op = "kl" ->
        IF ~s.upd THEN "update-before-the-interval"
        ELSE IF Foreign(s, ev) # {} THEN "policy-changed-by-foreign-transition"
        ELSE IF MeanKl(s, ev) > c.maxkl + 24 + c.maxkl \div 16 THEN "trust-region-exceeded"
        ELSE IF Judged(c, s.ds) /\ Gain(c, s, ev) < 0 - 64 * Len(s.ds) THEN "surrogate-objective-worsened"
        ELSE IF Judged(c, s.ds) /\ ev.p = ev.q THEN "policy-not-updated"
        ELSE ""
    [] ev.op = "end" ->
        IF s.pc # "observed" THEN "unexpected-end"
        ELSE IF ~s.upd THEN ""
        ELSE IF c.algo = "trpo" /\ ~s.kl THEN "policy-not-updated"
        ELSE IF ~VisitsOK(c, s) THEN "transitions-not-visited-evenly"
        ELSE ""
    [] OTHER -> "unknown-event"

Observed(c, s, ev) ==
    LET tr(e) == [id |-> s.obs[e], a |-> s.a[e], r |-> ev.r[e], nid |-> ev.nobs[e], done |-> ev.done[e]]
        ended == { e \in 1..c.n : ev.done[e] \/ ev.reset[e] }
        full == [e \in 1..c.n |-> Append(s.cur[e], tr(e))]
        fin == SelectSeq([e \in 1..c.n |-> IF e \in ended THEN full[e] ELSE <<>>], LAMBDA x : x # <<>>)
        s1 == [s EXCEPT !.pc = "observed", !.mem = @ \o fin,
                        !.cur = [e \in 1..c.n |-> IF e \in ended THEN <<>> ELSE full[e]]]
        ds == Data(c, s1.mem \o Open(s1))
    IN  IF Ready(c, s1)
        THEN [s1 EXCEPT !.upd = TRUE, !.ds = ds, !.mem = <<>>, !.cur = [e \in 1..c.n |-> <<>>],
                        !.visits = [i \in 1..Len(ds) |-> 0], !.m = 0, !.normed = FALSE, !.kl = FALSE]
        ELSE s1
Visited(s, ev) == [i \in 1..Len(s.ds) |-> s.visits[i] +
    SumSeq([j \in 1..Len(ev.items) |-> IF ev.items[j].id = s.ds[i].id THEN ev.items[j].mult ELSE 0])]
Step(c, s, ev) ==
  CASE ev.op = "act" -> [s EXCEPT !.pc = "acted", !.obs = ev.obs, !.a = ev.a]
    [] ev.op = "observe" -> Observed(c, s, ev)
    [] ev.op = "norm" -> [s EXCEPT !.normed = TRUE]
    [] ev.op = "step" -> [s EXCEPT !.visits = Visited(s, ev), !.m = @ + Total(ev)]
    [] ev.op = "kl" -> [s EXCEPT !.kl = TRUE]
    [] ev.op = "end" -> [s EXCEPT !.pc = "idle", !.upd = FALSE, !.ds = <<>>]
    [] OTHER -> s
=============================================================================
