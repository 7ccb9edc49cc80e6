------------------------------- MODULE Fixed -------------------------------
(***************************************************************************)
(* Fixed-point arithmetic with S = 2^14 units to one, for the rules which  *)
(* speak about real numbers.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

S == 16384
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Clamp(x, lo, hi) == Min2(Max2(x, lo), hi)
Near(a, b, tol) == Abs(a - b) <= tol
\* x * n / d rounded to nearest (d > 0)
Mul(x, n, d) == (2 * x * n + d) \div (2 * d)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RECURSIVE MaxSeq(_)
MaxSeq(q) == IF Len(q) = 1 THEN q[1] ELSE Max2(Head(q), MaxSeq(Tail(q)))
\* x * y for fixed-point numbers of moderate size
FMul(x, y) ==
    LET hi == y \div 128
        lo == y % 128
    IN  (x * hi + ((x * lo) \div 128) + 64) \div 128

\* exp(-k/8), k = 0..80, in units of 2^-16
ExpTab == <<65536, 57835, 51039, 45042, 39750, 35079, 30957, 27319, 24109, 21276, 18776,
            16570, 14623, 12905, 11388, 10050, 8869, 7827, 6907, 6096, 5380,
            4747, 4190, 3697, 3263, 2879, 2541, 2243, 1979, 1746, 1541, 1360,
            1200, 1059, 935, 825, 728, 642, 567, 500, 442, 390, 344, 303, 268,
            236, 209, 184, 162, 143, 127, 112, 99, 87, 77, 68, 60, 53, 47, 41,
            36, 32, 28, 25, 22, 19, 17, 15, 13, 12, 10, 9, 8, 7, 6, 6, 5, 4,
            4, 3, 3>>
ExpNeg(k) == IF k > 80 THEN 0 ELSE ExpTab[k + 1]       \* exp(-k/8)

\* log2 of x/2^14 for 2^14 <= x < 2^15, n bits
RECURSIVE Log2Bits(_, _)
Log2Bits(x, n) ==      \* in units of 2^-n
    IF n = 0 THEN 0
    ELSE LET y == (x * x) \div 16384 IN
         IF y >= 32768 THEN 2^(n - 1) + Log2Bits(y \div 2, n - 1)
         ELSE Log2Bits(y, n - 1)
\* ln of x/2^14 for x >= 2^14, in units of 2^-14
RECURSIVE LnF(_)
LnF(x) == IF x >= 32768 THEN 11357 + LnF(x \div 2)
          ELSE (Log2Bits(x, 12) * 4 * 11357) \div 16384
=============================================================================
