------------------------------- MODULE FixedMC -------------------------------
(* Fixed point functions against their definitions, for all small arguments.  *)
EXTENDS Fixed

CONSTANT N
VARIABLES a, b

Init == a \in 0..N /\ b \in 0..N
Next == UNCHANGED <<a, b>>

Near(u, v, d) == u - v <= d /\ v - u <= d

\* roots of squares; (x - 1)^2 <= a * 4^k < (x + 2)^2
RootLaw == a > 0 => /\ SqrtIn(a * a, 10) = a * 1024
                    /\ LET x == SqrtIn(a, 10) IN (x - 1) * (x - 1) <= a * 1048576 /\ a * 1048576 < (x + 2) * (x + 2)
RatioLaw == a > 0 /\ b > 0 => /\ Near(SqrtRatio(a * a, b * b) * b, a * 16384, 2 * b)
                              /\ a <= b => LET r == SqrtRatio(a * b, b * b) IN Near((r * r) \div 16384, (a * 16384) \div b, 5)
                              /\ Near(SqrtRatio(a * 100000, b * 100000), SqrtRatio(a, b), 2 + SqrtRatio(a, b) \div 100000)
\* complementary angles, double angles: (x + iy)^2 = x^2 - y^2 + 2ixy
AngleLaw == a + b > 0 => /\ Near(Angle(a, b) + Angle(b, a), 9000000, 8)
                         /\ b <= a => Near(Angle(a * a - b * b, 2 * a * b), 2 * Angle(a, b), 12)
                         /\ Near(Angle(a, b), Angle(100 * a, 100 * b), 4)
                         /\ a = b => Near(Angle(a, b), 4500000, 4)
                         /\ b > 0 /\ a >= b => Angle(a, b) < Angle(a, b + 1) /\ Angle(a + 1, b) < Angle(a, b)
=============================================================================
