------------------------------- MODULE ActVal -------------------------------
(***************************************************************************)
(* Action values and the heads producing them.  A batch of rows, each with    *)
(* its own values:                                                             *)
(*   disc   q[row][action]                                                      *)
(*   dist   p[row][action][atom] in 16ths over the values z                      *)
(*   quant  t[row][quantile][action]                                             *)
(*   quad   v - 1/2 (a - mu)' P (a - mu), bounds lo, hi (or none)                 *)
(* An object is a selection of rows (s.objs); what it answers depends on its      *)
(* own rows and the arguments only, not on what was asked before.  Values are      *)
(* in units of 1/K after division by Den.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
K == 64
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))

Den(c) == CASE c.kind = "dist" -> 16 [] c.kind = "quant" -> Len(c.rows[1].t) [] c.kind = "quad" -> 2 [] OTHER -> 1
NA(c) == CASE c.kind = "disc" -> Len(c.rows[1].q) [] c.kind = "dist" -> Len(c.rows[1].p)
           [] c.kind = "quant" -> Len(c.rows[1].t[1]) [] OTHER -> 0
\* the value times Den; a discrete action counts from 0, a continuous one is a vector
Num(c, r, a) ==
  LET w == c.rows[r] IN
  CASE c.kind = "disc" -> w.q[a + 1]
    [] c.kind = "dist" -> Sum([i \in 1..Len(c.z) |-> w.p[a + 1][i] * c.z[i]])
    [] c.kind = "quant" -> Sum([i \in 1..Len(w.t) |-> w.t[i][a + 1]])
    [] c.kind = "quad" ->
        LET d == [i \in 1..Len(a) |-> a[i] - w.mu[i]] IN
        2 * w.v - Sum([i \in 1..Len(d) |-> Sum([j \in 1..Len(d) |-> d[i] * w.m[i][j] * d[j]])])
Clip(c, x) == [i \in 1..Len(x) |->
    LET y == IF c.lo # <<>> /\ c.lo[i] > x[i] THEN c.lo[i] ELSE x[i]
    IN IF c.hi # <<>> /\ c.hi[i] < y THEN c.hi[i] ELSE y]
\* the largest value
Top(c, r) ==
    IF c.kind = "quad" THEN Num(c, r, Clip(c, c.rows[r].mu))
    ELSE LET V == { Num(c, r, a) : a \in 0..(NA(c) - 1) } IN CHOOSE x \in V : \A y \in V : y <= x
IsBest(c, r, a) == IF c.kind = "quad" THEN a = Clip(c, c.rows[r].mu)
                   ELSE a \in 0..(NA(c) - 1) /\ Num(c, r, a) = Top(c, r)
\* x / Den in units of 1/K
Is(c, got, num) == got * Den(c) = num * K
\* expectation under the uniform choice (an inverse temperature of 0)
MeanNum(c, r) == Sum([a \in 1..NA(c) |-> Num(c, r, a - 1)])

InitState(c) == [objs |-> <<>>]
Near(x, y, t) == Abs(x - y) <= t

QueryClause(c, s, ev) ==
  LET rows == s.objs[ev.obj]
      n == Len(rows) IN
  IF Len(ev.res) # n THEN "answer-for-another-number-of-rows"
  ELSE CASE ev.what = "greedy" ->
            IF \E i \in 1..n : ~IsBest(c, rows[i], ev.res[i]) THEN "greedy-action-is-not-the-best" ELSE ""
    [] ev.what = "max" ->
            IF \E i \in 1..n : ~Is(c, ev.res[i], Top(c, rows[i])) THEN "max-is-not-the-best-value" ELSE ""
    [] ev.what = "eval" ->
            IF \E i \in 1..n : ~Is(c, ev.res[i], Num(c, rows[i], ev.a[i])) THEN "wrong-value-of-an-action" ELSE ""
    [] ev.what = "adv" ->
            IF \E i \in 1..n : ~Is(c, ev.res[i], Num(c, rows[i], ev.a[i]) - Top(c, rows[i])) THEN "wrong-advantage" ELSE ""
    [] ev.what = "dadv" ->
            IF \E i \in 1..n : ~Is(c, ev.res[i], Num(c, rows[i], ev.a[i]) - Num(c, rows[i], ev.b[i]))
            THEN "wrong-double-advantage" ELSE ""
    [] ev.what = "mean" ->
            IF \E i \in 1..n : Abs(ev.res[i] * Den(c) * NA(c) - MeanNum(c, rows[i]) * K) > Den(c) * NA(c)
            THEN "wrong-expectation" ELSE ""
    [] ev.what = "maxdist" ->
            IF \E i \in 1..n : ~\E a \in 0..(NA(c) - 1) : IsBest(c, rows[i], a) /\ ev.res[i] = c.rows[rows[i]].p[a + 1]
            THEN "distribution-of-another-action" ELSE ""
    [] ev.what = "evaldist" ->
            IF \E i \in 1..n : ev.res[i] # c.rows[rows[i]].p[ev.a[i] + 1] THEN "distribution-of-another-action" ELSE ""
    [] ev.what = "quantiles" ->
            IF \E i \in 1..n : LET t == c.rows[rows[i]].t IN ev.res[i] # [k \in 1..Len(t) |-> t[k][ev.a[i] + 1]]
            THEN "quantiles-of-another-action" ELSE ""
    [] OTHER -> "unknown-query"

\* heads, in units of 1/4096
HeadClause(ev) ==
  CASE ev.what = "rows" ->
        IF Len(ev.all) # Len(ev.alone) THEN "answer-for-another-number-of-rows"
        ELSE IF \E i \in 1..Len(ev.all) : Len(ev.all[i]) # Len(ev.alone[i])
                    \/ \E j \in 1..Len(ev.all[i]) : ~Near(ev.all[i][j], ev.alone[i][j], ev.tol)
        THEN "answer-depends-on-other-rows" ELSE ""
    [] ev.what = "best" ->
        IF \E i \in 1..Len(ev.max) : ~Near(ev.max[i], ev.atgreedy[i], ev.tol) THEN "max-is-not-the-best-value"
        ELSE IF \E i \in 1..Len(ev.max) : \E j \in 1..Len(ev.others) : ev.others[j][i] > ev.max[i] + ev.tol
        THEN "another-action-is-better" ELSE ""
    [] ev.what = "sym" ->
        IF \E i \in 1..Len(ev.plus) : ~Near(ev.plus[i], ev.minus[i], ev.tol) THEN "not-symmetric-around-the-best" ELSE ""
    [] ev.what = "probs" ->
        IF \E i \in 1..Len(ev.p) : \E a \in 1..Len(ev.p[i]) :
            ~Near(Sum(ev.p[i][a]), 4096, ev.tol) \/ \E z \in 1..Len(ev.p[i][a]) : ev.p[i][a][z] < 0
        THEN "not-a-distribution"
        ELSE IF Len(ev.z) # ev.n \/ \E i \in 1..Len(ev.z) :
            ~Near((ev.n - 1) * (ev.z[i] - ev.vmin), (i - 1) * (ev.vmax - ev.vmin), ev.tol * ev.n)
        THEN "wrong-support" ELSE ""
    [] ev.what = "dueling" ->
        LET n == Len(ev.a[1]) IN
        IF \E i \in 1..Len(ev.q) : \E k \in 1..n : ~Near(n * ev.q[i][k], n * (ev.a[i][k] + ev.v[i]) - Sum(ev.a[i]), n * ev.tol)
        THEN "not-value-plus-centred-advantage" ELSE ""
    [] ev.what = "policy" ->
        IF \E f \in {"mean", "mode"} : \E i \in 1..Len(ev.loc) : Len(ev[f]) # Len(ev.loc) \/ Len(ev[f][i]) # Len(ev.loc[i])
                \/ \E j \in 1..Len(ev.loc[i]) : ~Near(ev[f][i][j], ev.loc[i][j], ev.tol) THEN "wrong-mean-or-mode"
        ELSE IF \E i \in 1..Len(ev.loc) : \E j \in 1..Len(ev.loc[i]) : ~Near(ev.var[i][j], ev.wantvar[i][j], ev.tol)
        THEN "wrong-variance"
        ELSE IF ev.joint # Len(ev.loc) THEN "not-one-action-per-row" ELSE ""
    [] ev.what = "softmax" ->
        IF \E i \in 1..Len(ev.p) : \E k \in 1..Len(ev.p[i]) : ~Near(ev.p[i][k], ev.want[i][k], ev.tol) THEN "wrong-probabilities"
        ELSE IF \E i \in 1..Len(ev.p) : \E k \in 1..Len(ev.p[i]) : ev.want[i][k] > ev.want[i][ev.mode[i] + 1] THEN "wrong-mean-or-mode" ELSE ""
    [] ev.what = "delta" ->
        IF \E i \in 1..Len(ev.samples) : ev.samples[i] # ev.loc THEN "sample-differs-from-the-only-value"
        ELSE IF \E i \in 1..Len(ev.spread) : ev.spread[i] # 0 THEN "wrong-variance" ELSE ""
    [] ev.what = "bound" ->
        \* rows ordered by the input; the first far below, the last far above, the middle one zero
        LET n == Len(ev.y) IN
        IF \E i \in 1..n : \E j \in 1..Len(ev.lo) : ev.y[i][j] < ev.lo[j] - ev.tol \/ ev.y[i][j] > ev.hi[j] + ev.tol
        THEN "outside-the-bounds"
        ELSE IF \E i \in 1..(n - 1) : \E j \in 1..Len(ev.lo) : ev.y[i + 1][j] < ev.y[i][j] THEN "bounding-reverses-the-order"
        ELSE IF \E j \in 1..Len(ev.lo) : \/ ~Near(ev.y[1][j], ev.lo[j], ev.tol) \/ ~Near(ev.y[n][j], ev.hi[j], ev.tol)
                                        \/ ~Near(2 * ev.y[(n + 1) \div 2][j], ev.lo[j] + ev.hi[j], ev.tol)
        THEN "bounds-not-reached" ELSE ""
    [] ev.what = "within" ->
        IF \E i \in 1..Len(ev.y) : \E j \in 1..Len(ev.lo) : ev.y[i][j] < ev.lo[j] - ev.tol \/ ev.y[i][j] > ev.hi[j] + ev.tol
        THEN "outside-the-bounds" ELSE ""
    [] ev.what = "tri" ->
        IF \E b \in 1..Len(ev.m) : \E i, j \in 1..ev.n : ev.m[b][i][j] #
              (IF i = j THEN ev.diag[b][i] ELSE IF j > i THEN 0 ELSE ev.off[b][((i - 1) * (i - 2)) \div 2 + j])
        THEN "wrong-triangular-matrix" ELSE ""
    [] ev.what = "sphere" ->
        IF \E i \in 1..Len(ev.var) : \E j \in 1..Len(ev.var[i]) : ~Near(ev.var[i][j], ev.var[1][1], 1)
        THEN "not-spherical" ELSE ""
    [] OTHER -> "unknown-head"

Clause(c, s, ev) ==
  CASE ev.op = "make" -> ""
    [] ev.op = "slice" -> ""
    [] ev.op = "query" -> QueryClause(c, s, ev)
    [] ev.op = "head" -> HeadClause(ev)
    [] OTHER -> "unknown-event"
Step(c, s, ev) ==
  CASE ev.op = "make" -> [objs |-> Append(s.objs, [i \in 1..Len(c.rows) |-> i])]
    [] ev.op = "slice" -> [objs |-> Append(s.objs, [i \in 1..Len(ev.idx) |-> s.objs[ev.obj][ev.idx[i]]])]
    [] OTHER -> s
=============================================================================
