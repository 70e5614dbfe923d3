------------------------------- MODULE KdProgMC -------------------------------
(* Laws of the distances of KdProg, over all pairs of places and all small    *)
(* squared distances.                                                         *)
EXTENDS KdProg

CONSTANTS Step, N
VARIABLES a, b, q

Places == {<<lo, la>> : lo \in {k \in -12..12 : k % Step = 0}, la \in {k \in -6..6 : k % Step = 0}}

MInit == KInit /\ a \in Places /\ b = <<0, 0>> /\ q = 0
MNext == /\ UNCHANGED <<trees, a>>
         /\ \/ b' \in Places /\ q' = 0
            \/ b = <<0, 0>> /\ a = <<0, 0>> /\ q' \in 0..N /\ UNCHANGED b

Same(u, v) == u[2] = v[2] /\ (u[2] \in {-6, 6} \/ (u[1] - v[1]) % 24 = 0)
Antipode(u) == <<u[1] + 12, -u[2]>>

Abs4(x) == IF x < 0 THEN -x ELSE x

\* a metric on places, as exact as its table; a whole turn changes nothing
SphereLaw ==
  /\ Chord2(a, b) = Chord2(b, a)
  /\ (Chord2(a, b) <= Hi(0)) = Same(a, b)
  /\ Chord2(<<a[1] + 24, a[2]>>, b) = Chord2(a, b)
  \* a right angle is seen over any diameter
  /\ Abs4(Chord2(a, b) + Chord2(Antipode(a), b) - 400000000) <= 400000
\* chords along a meridian and the equator: 2 sin (angle / 2)
EvenLaw == a[2] = 0 /\ b[2] = 0 /\ (a[1] - b[1]) % 2 = 0 =>
             LET s == 2 * Abs4(Sin((a[1] - b[1]) \div 2)) IN Lo(s) <= Chord2(a, b) /\ Chord2(a, b) <= Hi(s)

\* the rounded root is accepted, others are not
RECURSIVE RootFrom(_, _)
RootFrom(D, k) == IF (k + 1) * (k + 1) > D THEN k ELSE RootFrom(D, k + 1)
PrintLaw == LET k == RootFrom(q, 0)
            IN  /\ Prints(k, 1, q) /\ Prints(k + 1, 1, q)
                /\ ~Prints(k + 3, 1, q) /\ (k > 2 => ~Prints(k - 2, 1, q))
=============================================================================
