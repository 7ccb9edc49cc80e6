-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* Distributional value agents whose model is a table.                      *)
(* Categorical: p[s][a][k] probabilities (powers of two) of the atoms       *)
(*   z(k) = vmin + (k-1) dz.  Quantile: p[s][a][b] value of the quantiles   *)
(*   tau < 1/2 (b = 1) and tau >= 1/2 (b = 2).                              *)
(* All numbers fixed point, S units to one.                                 *)
(***************************************************************************)
EXTENDS Fixed

G(c, x) == Mul(x, c.gn, c.gd)
RECURSIVE GPow(_, _, _)
GPow(c, x, k) == IF k = 0 THEN x ELSE GPow(c, G(c, x), k - 1)
RECURSIVE Return(_, _)
Return(c, rs) == IF rs = <<>> THEN 0 ELSE Head(rs) + G(c, Return(c, Tail(rs)))
Terminal(e) == \E i \in 1..Len(e.terms) : e.terms[i]
MeanDiv(c, n) == IF c.mean THEN n ELSE 1

\* --- projection -----------------------------------------------------------
\* share of an atom at value y in support point k: linear interpolation, ends absorb
Share(vmin, dz, n, y, k) ==
    LET yc == Clamp(y, vmin, vmin + (n - 1) * dz)
        d == Abs(yc - (vmin + (k - 1) * dz))
    IN  IF d >= dz THEN 0 ELSE Mul(S, dz - d, dz)
\* y, py: values and probabilities of the atoms
Project(vmin, dz, n, y, py) ==
    [k \in 1..n |-> SumSeq([j \in 1..Len(y) |-> FMul(py[j], Share(vmin, dz, n, y[j], k))])]

\* --- categorical ----------------------------------------------------------
Z(c, k) == c.vmin + (k - 1) * c.dz
QV(c, dist) == SumSeq([k \in 1..c.atoms |-> FMul(dist[k], Z(c, k))])
Best(c, rows) == { a \in 1..Len(rows) : \A b \in 1..Len(rows) : QV(c, rows[a]) >= QV(c, rows[b]) }
Tied(c, rows) == \E a, b \in 1..Len(rows) : a # b /\ Near(QV(c, rows[a]), QV(c, rows[b]), 4)
CatTarget(c, ev, e) ==
    LET a == IF c.double THEN CHOOSE x \in Best(c, ev.q[e.s2]) : TRUE
             ELSE CHOOSE x \in Best(c, ev.tq[e.s2]) : TRUE
        y == [k \in 1..c.atoms |-> Return(c, e.rs)
                 + (IF Terminal(e) THEN 0 ELSE GPow(c, Z(c, k), Len(e.rs)))]
    IN  Project(c.vmin, c.dz, c.atoms, y, ev.tq[e.s2][a])
CatAmbiguous(c, ev) == \E i \in 1..Len(ev.batch) :
    Tied(c, IF c.double THEN ev.q[ev.batch[i].s2] ELSE ev.tq[ev.batch[i].s2])
\* gradient step on the cross entropy: p_k + lr w t_k / p_k (/ batch size)
CatDelta(c, ev, e, k) ==
    Mul(FMul(Mul(CatTarget(c, ev, e)[k], S, ev.q[e.s][e.a][k]), e.w), c.ln, c.ld * MeanDiv(c, Len(ev.batch)))
RECURSIVE Pow2(_)
Pow2(p) == IF p >= S THEN 0 ELSE 1 + Pow2(2 * p)       \* -log2 p for a power of two
CatErr(c, ev, e) ==
    LET t == CatTarget(c, ev, e) IN
    SumSeq([k \in 1..c.atoms |-> FMul(t[k] * Pow2(ev.q[e.s][e.a][k]), 11357)])

\* --- quantile -------------------------------------------------------------
Bucket(tau) == IF tau >= S \div 2 THEN 2 ELSE 1
QMean(row, taus) == SumSeq([i \in 1..Len(taus) |-> row[Bucket(taus[i])]])
QBest(rows, taus) == CHOOSE a \in 1..Len(rows) : \A b \in 1..Len(rows) : QMean(rows[a], taus) >= QMean(rows[b], taus)
QTied(rows, taus) == \E a, b \in 1..Len(rows) :
    a # b /\ Near(QMean(rows[a], taus), QMean(rows[b], taus), 4)
\* taus closer to one half than the resolution are not classified
Delicate(ts) == \E i \in 1..Len(ts) : Near(ts[i], S \div 2, 2)
QuantAmbiguous(c, ev) == \E i \in 1..Len(ev.batch) :
    \/ QTied(ev.tq[ev.batch[i].s2], ev.tk[i])
    \/ Delicate(ev.tk[i]) \/ Delicate(ev.tp[i]) \/ Delicate(ev.tn[i])
QuantT(c, ev, i) ==
    LET e == ev.batch[i]
        a == QBest(ev.tq[e.s2], ev.tk[i])
    IN  [j \in 1..Len(ev.tp[i]) |-> Return(c, e.rs)
            + (IF Terminal(e) THEN 0 ELSE GPow(c, ev.tq[e.s2][a][Bucket(ev.tp[i][j])], Len(e.rs)))]
\* slope of the quantile Huber loss at y (threshold tau) against target t
QSlope(y, t, tau) == FMul(Clamp(y - t, 0 - S, S), Abs(tau - (IF t < y THEN S ELSE 0)))
QuantDelta(c, ev, i, b) ==
    LET e == ev.batch[i]
        t == QuantT(c, ev, i)
        g == SumSeq([x \in 1..Len(ev.tn[i]) |->
                IF Bucket(ev.tn[i][x]) # b THEN 0
                ELSE Mul(SumSeq([j \in 1..Len(t) |-> QSlope(ev.q[e.s][e.a][b], t[j], ev.tn[i][x])]), 1, Len(t))])
    IN  0 - Mul(FMul(g, e.w), c.ln, c.ld * MeanDiv(c, Len(ev.batch)))
Huber(d) == IF Abs(d) < S THEN FMul(d, d) \div 2 ELSE Abs(d) - S \div 2
QuantErr(c, ev, i) ==
    LET e == ev.batch[i]
        t == QuantT(c, ev, i)
    IN  Mul(SumSeq([x \in 1..Len(ev.tn[i]) |-> SumSeq([j \in 1..Len(t) |->
                LET y == ev.q[e.s][e.a][Bucket(ev.tn[i][x])] IN
                FMul(Huber(y - t[j]), Abs(ev.tn[i][x] - (IF t[j] < y THEN S ELSE 0)))])]),
            1, Len(t) * Len(ev.tn[i]))

\* --- one update -------------------------------------------------------------
Delta(c, ev, i, k) == IF c.fam = "cat" THEN CatDelta(c, ev, ev.batch[i], k) ELSE QuantDelta(c, ev, i, k)
ErrOf(c, ev, i) == IF c.fam = "cat" THEN CatErr(c, ev, ev.batch[i]) ELSE QuantErr(c, ev, i)
Ambiguous(c, ev) == IF c.fam = "cat" THEN CatAmbiguous(c, ev) ELSE QuantAmbiguous(c, ev)
Expected(c, ev, s, a, k) ==
    ev.q[s][a][k] + SumSeq([i \in 1..Len(ev.batch) |->
        IF ev.batch[i].s = s /\ ev.batch[i].a = a THEN Delta(c, ev, i, k) ELSE 0])
Tol(c, ev) == (IF c.fam = "cat" THEN 24 ELSE 12) * Len(ev.batch)

InitState(c) == [n |-> 0]
Clause(c, s, ev) ==
  CASE ev.op = "update" ->
        IF ev.tqa # ev.tq THEN "target-network-changed"
        ELSE IF Ambiguous(c, ev) THEN ""
        ELSE IF \E x \in 1..Len(ev.q) : \E a \in 1..Len(ev.q[x]) :
              /\ ~\E i \in 1..Len(ev.batch) : ev.batch[i].s = x /\ ev.batch[i].a = a
              /\ ev.qa[x][a] # ev.q[x][a] THEN "unsampled-value-changed"
        ELSE IF \E i \in 1..Len(ev.batch) : \E k \in 1..Len(ev.q[1][1]) :
              ~Near(ev.qa[ev.batch[i].s][ev.batch[i].a][k],
                    Expected(c, ev, ev.batch[i].s, ev.batch[i].a, k), Tol(c, ev)) THEN "wrong-target-distribution"
        ELSE IF ev.haserr /\ Len(ev.errs) # Len(ev.batch) THEN "wrong-number-of-errors"
        ELSE IF ev.haserr /\ \E i \in 1..Len(ev.batch) :
              ~Near(ev.errs[i], ErrOf(c, ev, i), 24) THEN "wrong-error-reported"
        ELSE ""
    [] ev.op = "project" ->
        LET n == Len(ev.out) IN
        IF Len(ev.out) # ev.n THEN "wrong-support"
        ELSE IF ~Near(SumSeq(ev.out), SumSeq(ev.py), n + Len(ev.py)) THEN "mass-not-conserved"
        ELSE IF \E k \in 1..n : ~Near(ev.out[k], Project(ev.vmin, ev.dz, n, ev.y, ev.py)[k], 3 + Len(ev.py))
             THEN "wrong-projection"
        ELSE ""
    [] OTHER -> "unknown-event"
Step(c, s, ev) == [s EXCEPT !.n = @ + 1]
=============================================================================
