-------------------------------- MODULE KdProg --------------------------------
(* The kd program as a behaviour of KdTree: the lines of a file make one      *)
(* batch, and the program prints the answer to one query.                     *)
(*                                                                            *)
(* A line of the file is [c: comment (1/0), v: its leading tokens]; a token is *)
(* <<1, a>> a number, <<0>> a number that is not finite, <<2>> not a number.   *)
(* In the plane the numbers are whole.  On the sphere they are longitudes and *)
(* latitudes as whole multiples of 15 degrees, and distances are counted in   *)
(* 1/10000 of the radius.                                                     *)
EXTENDS KdTree

Number(t) == t[1] \in {0, 1}
IsPoint(ln, d) == ln.c = 0 /\ Len(ln.v) >= d /\ \A k \in 1..d : Number(ln.v[k])
AsPoint(ln, d) == IF \A k \in 1..d : ln.v[k][1] = 1
                  THEN <<1>> \o [k \in 1..d |-> ln.v[k][2]]
                  ELSE <<0>> \o [k \in 1..d |-> 0]
PointsOf(L, d) == LET P == SelectSeq(L, LAMBDA ln : IsPoint(ln, d))
                  IN  [k \in 1..Len(P) |-> AsPoint(P[k], d)]

\* reading a file: a tree of its points
PLoad(L, d) ==
  \E ps \in {PointsOf(L, d)} :
    LET all == {<<ps[k][1], k - 1>> \o SubSeq(ps[k], 2, Len(ps[k])) : k \in 1..Len(ps)}
        S   == {SubSeq(p, 2, Len(p)) : p \in {q \in all : q[1] = 1}}
    IN  trees' = <<[d |-> d, n |-> Cardinality(S), s |-> S, x |-> <<>>]>>

\* ------------------------------------------------------------ the plane
\* a printed distance q / m stands for the square root of D
Prints(q, m, D) == D * m * m <= (q + 1) * (q + 1) /\ (q > 1 => D * m * m >= (q - 1) * (q - 1))

\* a row: <<node, q, m>>
PlaneRow(S, p, row) == row[1] \in S /\ Prints(row[2], row[3], Dist2(row[1], p))

PlaneNearest(p, rows) ==
  LET S == trees[1].s
  IN  /\ Len(rows) = 1
      /\ PlaneRow(S, p, rows[1])
      /\ \A m \in S : Dist2(rows[1][1], p) <= Dist2(m, p)

PlaneRange(p, R, sorted, rows) ==
  LET S    == trees[1].s
      want == {nd \in S : 4 * Dist2(nd, p) <= R * R}
  IN  /\ Len(rows) = Cardinality(want)
      /\ {rows[k][1] : k \in 1..Len(rows)} = want
      /\ \A k \in 1..Len(rows) : PlaneRow(S, p, rows[k])
      /\ sorted = 1 => \A k \in 1..(Len(rows) - 1) : Dist2(rows[k][1], p) <= Dist2(rows[k + 1][1], p)

\* ----------------------------------------------------------- the sphere
\* 10000 sin(15 k degrees)
Quarter == <<0, 2588, 5000, 7071, 8660, 9659, 10000>>
Sin(k) == LET a == k % 24
          IN  IF a <= 6 THEN Quarter[a + 1] ELSE IF a <= 12 THEN Quarter[13 - a]
              ELSE IF a <= 18 THEN -Quarter[a - 11] ELSE -Quarter[25 - a]
Cos(k) == Sin(k + 6)
\* products of two of them, rounded down
Mul(a, b) == (a * b) \div 10000
East(q)  == Mul(Sin(q[1]), Cos(q[2]))
North(q) == Mul(Cos(q[1]), Cos(q[2]))
Up(q)    == Sin(q[2])
\* squared length of the chord between two places
Chord2(a, b) == (East(a) - East(b)) * (East(a) - East(b)) + (North(a) - North(b)) * (North(a) - North(b)) + (Up(a) - Up(b)) * (Up(a) - Up(b))
Place(nd) == <<nd[2], nd[3]>>

Slack == 8
Lo(q) == IF q > Slack THEN (q - Slack) * (q - Slack) ELSE 0
Hi(q) == (q + Slack) * (q + Slack)

\* a row: <<<<id, longitude, latitude>>, q>>; the longitude may differ by whole turns
SameNode(nd, got) == nd[1] = got[1] /\ (nd[2] - got[2]) % 24 = 0 /\ nd[3] = got[3]
SphereRow(S, p, row) ==
  \E nd \in S : SameNode(nd, row[1]) /\ Lo(row[2]) <= Chord2(Place(nd), p) /\ Chord2(Place(nd), p) <= Hi(row[2])

SphereNearest(p, rows) ==
  LET S == trees[1].s
  IN  /\ Len(rows) = 1
      /\ SphereRow(S, p, rows[1])
      /\ \A m \in S : Lo(rows[1][2]) <= Chord2(Place(m), p)

SphereRange(p, R, sorted, rows) ==
  LET S == trees[1].s
      ids == {rows[k][1][1] : k \in 1..Len(rows)}
  IN  /\ Cardinality(ids) = Len(rows)
      /\ \A k \in 1..Len(rows) : SphereRow(S, p, rows[k]) /\ rows[k][2] <= R + 1
      /\ \A nd \in S : Chord2(Place(nd), p) < Lo(R) => nd[1] \in ids
      /\ sorted = 1 => \A k \in 1..(Len(rows) - 1) : rows[k][2] <= rows[k + 1][2]

\* ------------------------------------------------------------- a run
\* what is printed: size, location, mode and its rows
PRun(g, p, range, R, sorted, o) ==
  LET n == trees[1].n
  IN  /\ o.size = n
      /\ IF n = 0 THEN o.mode = "none" /\ o.rows = <<>>
         ELSE /\ o.at = p
              /\ IF range = 0
                 THEN o.mode = "nearest" /\ (IF g = 1 THEN SphereNearest(p, o.rows) ELSE PlaneNearest(p, o.rows))
                 ELSE /\ o.mode = "range" /\ o.count = Len(o.rows) /\ o.R = R
                      /\ IF g = 1 THEN SphereRange(p, R, sorted, o.rows) ELSE PlaneRange(p, R, sorted, o.rows)
      /\ UNCHANGED trees
=============================================================================
