--------------------------------- MODULE Geo ---------------------------------
(* Plane geometry on whole numbers.  A point is a sequence ending with its    *)
(* two coordinates: PX and PY work on <<x, y>> and on nodes <<v, x, y>>.      *)
EXTENDS Integers, Sequences, FiniteSets

PX(p) == p[Len(p) - 1]
PY(p) == p[Len(p)]

Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

\* twice the signed area of the triangle a, b, p (positive: counterclockwise)
Cross(a, b, p) == (PX(b) - PX(a)) * (PY(p) - PY(a)) - (PY(b) - PY(a)) * (PX(p) - PX(a))

Between(v, a, b) == (a <= v /\ v <= b) \/ (b <= v /\ v <= a)

\* p lies on the closed segment from a to b
OnSegment(a, b, p) == /\ Between(PX(p), PX(a), PX(b)) /\ Between(PY(p), PY(a), PY(b))
                      /\ Cross(a, b, p) = 0

\* p is not beyond all corners of q on one side
InBox(q, p) == /\ \E k \in 1..4 : PX(q[k]) >= PX(p)
               /\ \E k \in 1..4 : PX(q[k]) <= PX(p)
               /\ \E k \in 1..4 : PY(q[k]) >= PY(p)
               /\ \E k \in 1..4 : PY(q[k]) <= PY(p)

\* p lies in the closed convex quadrilateral with corners q[1..4] in order
InQuad(q, p) == /\ InBox(q, p)
                /\ \/ \A k \in 1..4 : Cross(q[k], q[(k % 4) + 1], p) >= 0
                   \/ \A k \in 1..4 : Cross(q[k], q[(k % 4) + 1], p) <= 0

\* p lies strictly inside
InsideQuad(q, p) == \/ \A k \in 1..4 : Cross(q[k], q[(k % 4) + 1], p) > 0
                    \/ \A k \in 1..4 : Cross(q[k], q[(k % 4) + 1], p) < 0

SqDist(a, b) == (PX(a) - PX(b)) * (PX(a) - PX(b)) + (PY(a) - PY(b)) * (PY(a) - PY(b))

\* A polygon is a sequence of points, closed by the side from the last to the
\* first one.
Side(w, k) == <<w[k], w[IF k = Len(w) THEN 1 ELSE k + 1]>>

OnBoundary(w, p) == \E k \in 1..Len(w) : OnSegment(Side(w, k)[1], Side(w, k)[2], p)

\* the side crosses the horizontal line of p (lower end included, upper not)
\* to the right of p
CrossesRight(a, b, p) ==
  /\ (PY(a) <= PY(p)) # (PY(b) <= PY(p))
  /\ IF PY(a) <= PY(p) THEN Cross(a, b, p) > 0 ELSE Cross(a, b, p) < 0

InsideEvenOdd(w, p) ==
  \/ OnBoundary(w, p)
  \/ Cardinality({k \in 1..Len(w) : CrossesRight(Side(w, k)[1], Side(w, k)[2], p)}) % 2 = 1

RECURSIVE Area2From(_, _)
Area2From(w, k) == IF k > Len(w) THEN 0
                   ELSE PX(Side(w, k)[1]) * PY(Side(w, k)[2]) - PX(Side(w, k)[2]) * PY(Side(w, k)[1]) + Area2From(w, k + 1)
\* twice the signed area, positive if counterclockwise
Area2(w) == Area2From(w, 1)
=============================================================================
