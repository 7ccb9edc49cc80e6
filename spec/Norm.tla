-------------------------------- MODULE Norm --------------------------------
(***************************************************************************)
(* Running normalization.  The data are integers; the state is the number,   *)
(* sum and sum of squares of everything experienced, so it cannot depend on   *)
(* how the data were split into batches.                                      *)
(* c = [d     number of elements, until  limit (0: none),                      *)
(*      eps   in 1/4096, clip  in 1/1024 (0: none)]                             *)
(* Events: experience [xs]; forward [xs, upd, y, back]; inverse [y, z];          *)
(* stats [n, mean, std]; clone [how].                                            *)
(* mean in 2^-14; std, y, back, z in 2^-10; y given to inverse in 1/4.            *)
(***************************************************************************)
EXTENDS Fixed

Zeros(c) == [j \in 1..c.d |-> 0]
InitState(c) == [n |-> 0, sum |-> Zeros(c), sq |-> Zeros(c)]

Absorb(c, s, xs) ==
    IF xs = <<>> \/ (c.until > 0 /\ s.n >= c.until) THEN s
    ELSE [n |-> s.n + Len(xs),
          sum |-> [j \in 1..c.d |-> s.sum[j] + SumSeq([i \in 1..Len(xs) |-> xs[i][j]])],
          sq |-> [j \in 1..c.d |-> s.sq[j] + SumSeq([i \in 1..Len(xs) |-> xs[i][j] * xs[i][j]])]]

RECURSIVE Newton(_, _)
Newton(v, x) == LET y == (x + v \div x) \div 2 IN IF y >= x THEN x ELSE Newton(v, y)
ISqrt(v) == IF v <= 0 THEN 0 ELSE Newton(v, 65536)

\* variance in 2^-12 (one before any data)
Var(s, j) == IF s.n = 0 THEN 4096 ELSE ((s.n * s.sq[j] - s.sum[j] * s.sum[j]) * 4096) \div (s.n * s.n)
Mean(s, j) == IF s.n = 0 THEN 0 ELSE (s.sum[j] * S) \div s.n                \* in 2^-14
Sd(c, s, j) == ISqrt((Var(s, j) + c.eps) * 4096)                             \* in 2^-12
Out(c, s, j, x) == ((x * S - Mean(s, j)) * 256) \div Sd(c, s, j)              \* in 2^-10
Clip(c, y) == IF c.clip = 0 THEN y ELSE Clamp(y, 0 - c.clip, c.clip)

Bad(c, s, ev) ==
  CASE ev.op = "stats" ->
        IF ev.n # s.n THEN "wrong-count"
        ELSE IF \E j \in 1..c.d : ~Near(ev.mean[j], Mean(s, j), 24) THEN "wrong-mean"
        ELSE IF \E j \in 1..c.d : ~Near((ev.std[j] * ev.std[j]) \div 256, Var(s, j), 6 + ev.std[j] \div 100) THEN "wrong-variance"
        ELSE ""
    [] ev.op = "forward" ->
        LET t == IF ev.upd THEN Absorb(c, s, ev.xs) ELSE s IN
        IF Len(ev.y) # Len(ev.xs) THEN "wrong-shape"
        ELSE IF \E i \in 1..Len(ev.xs), j \in 1..c.d :
            LET o == Clip(c, Out(c, t, j, ev.xs[i][j])) IN ~Near(ev.y[i][j], o, 8 + Abs(o) \div 80)
        THEN "wrong-normalization"
        ELSE IF \E i \in 1..Len(ev.xs), j \in 1..c.d :
            (c.clip = 0 \/ Abs(Out(c, t, j, ev.xs[i][j])) < c.clip - 32 - c.clip \div 40) /\ ~Near(ev.back[i][j], ev.xs[i][j] * 1024, 12)
        THEN "denormalizing-is-not-the-inverse" ELSE ""
    [] ev.op = "inverse" ->
        IF \E i \in 1..Len(ev.y), j \in 1..c.d :
            LET z == (ev.y[i][j] * Sd(c, s, j)) \div 16 + Mean(s, j) \div 16 IN
            ~Near(ev.z[i][j], z, 8 + Abs(z) \div 80)
        THEN "wrong-denormalization" ELSE ""
    [] ev.op \in {"experience", "clone"} -> ""
    [] OTHER -> "unknown-event"

Clause(c, s, ev) == Bad(c, s, ev)
Step(c, s, ev) ==
  CASE ev.op = "experience" -> Absorb(c, s, ev.xs)
    [] ev.op = "forward" -> IF ev.upd THEN Absorb(c, s, ev.xs) ELSE s
    [] OTHER -> s
=============================================================================
