-------------------------------- MODULE PolyMC --------------------------------
(* Every polygon with up to L vertices on a lattice of M by M points, built   *)
(* vertex by vertex: laws of the even-odd rule, of area and of compaction,    *)
(* and the algorithms of the code (half-hit counting, the scan for corners)   *)
(* against their definitions.                                                 *)
EXTENDS Poly

CONSTANTS M, L

VARIABLE w

Lattice == {<<2 * i, 2 * j>> : i \in 0..(M - 1), j \in 0..(M - 1)}
Probe == {<<i, j>> : i \in -1..(2 * M - 1), j \in -1..(2 * M - 1)}

MInit == w = <<>> /\ PolyInit
MNext == Len(w) < L /\ (\E p \in Lattice : w' = Append(w, p)) /\ UNCHANGED pvars

Rot(s) == Tail(s) \o <<Head(s)>>
Doubled(s, k) == InsertAt(s, k, s[k + 1])
In(s, p) == InsideEvenOdd(s, p)

\* the same rule with the ray going up
CrossesUp(a, b, p) == /\ (PX(a) <= PX(p)) # (PX(b) <= PX(p))
                      /\ IF PX(a) <= PX(p) THEN Cross(a, b, p) < 0 ELSE Cross(a, b, p) > 0
InUp(s, p) == OnBoundary(s, p) \/ Cardinality({k \in 1..Len(s) : CrossesUp(Side(s, k)[1], Side(s, k)[2], p)}) % 2 = 1

RayLaw == Len(w) > 1 => \A p \in Probe : In(w, p) = InUp(w, p)
RotLaw == Len(w) > 1 => \A p \in Probe : In(w, p) = In(Rot(w), p) /\ In(w, p) = In(Reversed(w), p)
RepeatLaw == Len(w) > 1 => \A p \in Probe : \A k \in 0..(Len(w) - 1) : In(w, p) = In(Doubled(w, k), p) /\ In(w, p) = In(Closed(w), p)

\* counting by half hits, as the code does
Neg(a) == a < 0
RECURSIVE Hits(_, _, _, _)
Hits(s, p, i, h) ==
  IF i > Len(s) THEN (Abs(h) \div 2) % 2 = 1
  ELSE LET x1 == Side(s, i)[1][1] - p[1]
           y1 == Side(s, i)[1][2] - p[2]
           x2 == Side(s, i)[2][1] - p[1]
           y2 == Side(s, i)[2][2] - p[2]
       IN  IF y1 = 0 /\ y2 = 0 THEN IF x1 * x2 <= 0 THEN TRUE ELSE Hits(s, p, i + 1, h)
           ELSE IF y1 = 0 THEN IF x1 = 0 THEN TRUE
                               ELSE Hits(s, p, i + 1, IF x1 > 0 THEN h + (IF y2 > 0 THEN 1 ELSE -1) ELSE h)
           ELSE IF y2 = 0 THEN IF x2 = 0 THEN TRUE
                               ELSE Hits(s, p, i + 1, IF x2 > 0 THEN h + (IF y1 < 0 THEN 1 ELSE -1) ELSE h)
           ELSE IF y1 * y2 < 0
                THEN LET n == x1 * (y2 - y1) - (x2 - x1) * y1      \* sign of the crossing: n / (y2 - y1)
                         c == IF y2 > y1 THEN n ELSE -n
                     IN  IF x1 > 0 /\ x2 > 0 THEN Hits(s, p, i + 1, h + 2)
                         ELSE IF x1 * x2 <= 0 THEN IF c = 0 THEN TRUE ELSE Hits(s, p, i + 1, IF c > 0 THEN h + 2 ELSE h)
                         ELSE Hits(s, p, i + 1, h)
           ELSE Hits(s, p, i + 1, h)
AlgLaw == Len(w) > 1 => \A p \in Probe : Hits(w, p, 1, 0) = In(w, p)

AreaLaw == Len(w) > 0 => /\ Area2(Reversed(w)) = -Area2(w)
                         /\ Area2(Rot(w)) = Area2(w)
                         /\ Area2(Closed(w)) = Area2(w)

-----------------------------------------------------------------------------
(* Compaction *)

\* no side turns back onto the one before
NoFold(s) == LET d == Distinct(s) IN
  /\ Len(d) >= 3
  /\ \A k \in 1..Len(d) : LET a == d[IF k = 1 THEN Len(d) ELSE k - 1]
                              b == d[IF k = Len(d) THEN 1 ELSE k + 1]
                          IN  ~(Cross(a, b, d[k]) = 0 /\ ~OnSegment(a, b, d[k]))

RECURSIVE IsSub(_, _)
IsSub(a, s) == IF a = <<>> THEN TRUE ELSE IF s = <<>> THEN FALSE
               ELSE IF a[1] = s[1] THEN IsSub(Tail(a), Tail(s)) ELSE IsSub(a, Tail(s))

CompactLaw == (Len(w) > 4 /\ NoFold(w)) =>
  LET c == TLCEval(Compacted(w)) IN
  /\ IsSub(c, w)
  /\ \A p \in Probe : In(c, p) = In(w, p)
  /\ \A k \in 1..Len(c) : Corner(c, k)
  /\ Area2(c) = Area2(w)

\* the scan of the code: left = last kept, middle, right (positions from 1)
Prev(s, i) == IF i = 1 THEN Len(s) ELSE i - 1
RECURSIVE LeftOf(_, _)
LeftOf(s, i) == IF i > 1 /\ s[i] = s[1] THEN LeftOf(s, i - 1) ELSE i
RECURSIVE Scan(_, _, _, _, _, _)
Scan(s, n, left, middle, right, kept) ==
  IF n = 0 THEN kept
  ELSE LET r == IF right = Len(s) THEN 1 ELSE right + 1 IN
       IF s[right] = s[middle] THEN Scan(s, n - 1, left, middle, r, kept)
       ELSE IF Cross(s[left], s[right], s[middle]) # 0
            THEN Scan(s, n - 1, middle, right, r, Append(kept, middle))
            ELSE Scan(s, n - 1, left, right, r, kept)
ScanCompacted(s) == LET k == TLCEval(Scan(s, Len(s), LeftOf(s, Len(s)), 1, 2, <<>>)) IN [m \in 1..Len(k) |-> s[k[m]]]
ScanLaw == (Len(w) > 4 /\ NoFold(w)) => ScanCompacted(w) = Compacted(w)
=============================================================================
