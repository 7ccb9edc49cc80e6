------------------------------ MODULE Explore ------------------------------
(***************************************************************************)
(* Exploration.  Probabilities are in units of 10^-6; noise in 2^-10.         *)
(* c = [kind, start, stop, steps, dn, dd, ...]:                                *)
(*   "constant"  start;  "linear" from start to stop over steps, then stop;     *)
(*   "exp"  start * (dn/dd)^t with floor stop;  "greedy";                        *)
(*   "hook"  start at step 1 to stop at step steps, then stop (units 2^-10);     *)
(*   "gauss" scale (list, 2^-10), low, high (list, with haslow, hashigh);         *)
(*   "ou"    theta (dn/dd), mu, scale;  "boltz".                                   *)
(* Events: eps [t, e] the value in force after selecting at step t;                *)
(* freq [t, n, k] k of n selections were random; same: greedy action untouched;     *)
(* hook [step, v, calls]; noise [a, o, n, mean, var]; ou [x]; boltz [k, n, counts].  *)
(***************************************************************************)
EXTENDS Fixed

RECURSIVE Newton(_, _)
Newton(v, x) == LET y == (x + v \div x) \div 2 IN IF y >= x THEN x ELSE Newton(v, y)
ISqrt(v) == IF v <= 0 THEN 0 ELSE Newton(v, 65536)

RECURSIVE Decayed(_, _, _)
Decayed(c, v, k) == IF k = 0 \/ v = 0 THEN v ELSE Decayed(c, (v * c.dn) \div c.dd, k - 1)
\* x * n / d for 0 <= n <= d without leaving 32 bits
Part(x, n, d) == LET q == x \div d
                     r == x % d IN q * n + (r * n) \div d
Eps(c, t) ==
    CASE c.kind = "constant" -> c.start
      [] c.kind = "greedy" -> 0
      [] c.kind = "linear" ->
            IF t >= c.steps THEN c.stop
            ELSE IF c.stop >= c.start THEN c.start + Part(c.stop - c.start, t, c.steps)
            ELSE c.start - Part(c.start - c.stop, t, c.steps)
      [] c.kind = "exp" -> Max2(c.stop, Decayed(c, c.start, t))
Hook(c, k) ==
    IF k >= c.steps THEN c.stop ELSE IF k <= 1 THEN c.start
    ELSE IF c.stop >= c.start THEN c.start + Part(c.stop - c.start, k - 1, c.steps - 1)
    ELSE c.start - Part(c.start - c.stop, k - 1, c.steps - 1)

\* k successes of n at probability p (10^-6), 5.5 standard deviations
FreqBad(n, k, p) ==
    LET q == p \div 1000
        sd == ISqrt(n * q * (1000 - q)) IN       \* in 10^-3 selections
    \/ p = 0 /\ k # 0
    \/ p = 1000000 /\ k # n
    \/ Abs(k * 1000 - n * q) > (11 * sd) \div 2 + n + 2000

\* mean and variance of n samples with deviation sc (2^-10), in 2^-10 and 2^-20
MomentBad(n, m, v, sc) ==
    \/ sc = 0 /\ (m # 0 \/ v # 0)
    \/ Abs(m) > (6 * sc) \div ISqrt(n) + 2
    \/ Abs(v - sc * sc) > (10 * sc * sc) \div ISqrt(n) + 64

InitState(c) == [last |-> -1]

Clause(c, s, ev) ==
  CASE ev.op = "eps" ->
        IF ~Near(ev.e, Eps(c, ev.t), 20 + (IF c.kind = "exp" THEN Min2(ev.t, 200) ELSE 0)) THEN "not-the-scheduled-value"
        ELSE IF ev.e < Min2(c.start, c.stop) - 1 \/ ev.e > Max2(c.start, c.stop) + 1 THEN "beyond-the-end-points" ELSE ""
    [] ev.op = "freq" -> IF FreqBad(ev.n, ev.k, Eps(c, ev.t)) THEN "wrong-exploration-rate"
                         ELSE IF ev.foreign # 0 THEN "neither-greedy-nor-random" ELSE ""
    [] ev.op = "same" -> IF ev.ok THEN "" ELSE "greedy-action-corrupted"
    [] ev.op = "hook" -> IF ev.calls # 1 \/ ~ev.args THEN "setter-not-called-properly"
                         ELSE IF ~Near(ev.v, Hook(c, ev.step), 2) THEN "not-the-interpolated-value" ELSE ""
    [] ev.op = "noise" ->
        IF \E j \in 1..Len(c.scale) : MomentBad(ev.n, ev.mean[j], ev.var[j], c.scale[j]) THEN "wrong-noise-scale" ELSE ""
    [] ev.op = "noisy" ->    \* the same noise, clipped
        IF \E j \in 1..Len(c.scale) :
            LET x == ev.free[j]
                y == IF c.haslow /\ x < c.low[j] THEN c.low[j] ELSE IF c.hashigh /\ x > c.high[j] THEN c.high[j] ELSE x
            IN ~Near(ev.o[j], y, 2) THEN "wrong-clipping" ELSE ""
    [] ev.op = "ou" ->       \* without noise: straight decay towards the mean
        IF \E i \in 2..Len(ev.x) : ~Near(ev.x[i], ev.x[i-1] + Mul(c.mu - ev.x[i-1], c.dn, c.dd), 3) THEN "wrong-process"
        ELSE IF c.atmu /\ ev.x[1] # c.mu THEN "does-not-start-at-the-mean" ELSE ""
    [] ev.op = "boltz" ->
        LET m == MaxSeq(ev.q)
            w == [i \in 1..Len(ev.q) |-> ExpNeg(m - ev.q[i])]
            tot == SumSeq(w) IN
        IF \E i \in 1..Len(ev.q) : FreqBad(ev.n, ev.counts[i], Clamp(((w[i] * 1000) \div (tot \div 10)) * 100, 1, 999999)) THEN "wrong-action-probabilities"
        ELSE IF SumSeq(ev.counts) # ev.n THEN "no-such-action" ELSE ""
    [] OTHER -> "unknown-event"
Step(c, s, ev) == s
=============================================================================
