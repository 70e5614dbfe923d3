-------------------------------- MODULE Fixed --------------------------------
(* Square roots, ratios and angles in fixed point, with a known error, on     *)
(* whole numbers below 2^31.                                                  *)
EXTENDS Integers, Sequences, TLC

Half(a) == a \div 2
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

\* a * 2^k, rounded down
Shift(a, k) == IF k >= 0 THEN a * Pow2(k) ELSE a \div Pow2(-k)

RECURSIVE Root(_, _, _)
\* the root of a in lo..hi-1, rounded down
Root(a, lo, hi) == IF hi - lo = 1 THEN lo
                   ELSE LET m == Half(lo + hi) IN IF m * m <= a THEN Root(a, m, hi) ELSE Root(a, lo, m)

RECURSIVE Norm4(_, _)
\* <<m, e>>: a = m * 4^-e with m in [2^26, 2^28)
Norm4(a, e) == IF a < 67108864 THEN Norm4(4 * a, e + 1)
               ELSE IF a >= 268435456 THEN Norm4(a \div 4, e - 1) ELSE <<a, e>>

\* square root of a > 0 as <<s, e>>: s * 2^-(12 + e), relative error below 2^-24
Sqrt(a) == LET n == Norm4(a, 0)
               s == Root(n[1], 8192, 16385)
               d == n[1] - s * s
           IN  <<s * 4096 + (d * 4096) \div (2 * s), n[2]>>

\* square root of a in units of 2^-k
SqrtIn(a, k) == IF a = 0 THEN 0 ELSE LET s == Sqrt(a) IN Shift(s[1], k - 12 - s[2])

RECURSIVE Digits16(_, _, _, _)
\* n more base 16 digits of r / b
Digits16(q, r, b, n) == IF n = 0 THEN q ELSE Digits16(16 * q + (16 * r) \div b, (16 * r) % b, b, n - 1)

\* square root of a / b (a, b > 0) in units of 2^-14
SqrtRatio(a, b) == LET p == Sqrt(a)
                       q == Sqrt(b)
                       \* below 2^26, so that 16 * r does not overflow
                       r == Digits16(p[1] \div q[1], p[1] % q[1], q[1], 6)     \* units of 2^-24
                   IN  Shift(r, q[2] - p[2] - 10)

\* atan(2^-i) in units of 10^-6 degrees
ATab == <<45000000, 26565051, 14036243, 7125016, 3576334, 1789911, 895174, 447614, 223811, 111906, 55953, 27976,
          13988, 6994, 3497, 1749, 874, 437, 219, 109, 55, 27, 14, 7, 3, 2>>

RECURSIVE Rotate(_, _, _, _)
Rotate(x, y, i, z) ==
  IF i > Len(ATab) \/ y = 0 THEN z
  ELSE LET p == Pow2(i - 1) IN
       IF y > 0 THEN Rotate(x + y \div p, y - x \div p, i + 1, z + ATab[i])
       ELSE Rotate(x - y \div p, y + x \div p, i + 1, z - ATab[i])

RECURSIVE Norm2(_, _)
Norm2(x, y) == IF x < 67108864 /\ y < 67108864 THEN Norm2(2 * x, 2 * y) ELSE <<x, y>>

\* angle of the vector (x, y), x, y >= 0 and not both 0, in units of 10^-5
\* degrees; the error is below 5 units
Angle(x, y) == IF y = 0 THEN 0 ELSE IF x = 0 THEN 9000000
               ELSE LET n == Norm2(x, y) IN (Rotate(n[1], n[2], 1, 0) + 5) \div 10
=============================================================================
