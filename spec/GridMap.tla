------------------------------- MODULE GridMap -------------------------------
(* Mappings between physical and index space, boundaries and averaging over   *)
(* a corner grid of strictly convex cells.                                    *)
(*                                                                           *)
(* State: grids in registers, maps built over them, averagers over maps, and  *)
(* the answers given so far.  A grid belongs to a class: grids of one class   *)
(* differ by a change of units (removed by the encoding) and mirroring only.  *)
(* A question asked again - of any map over a grid of the class, at any time  *)
(* - must be answered as before.                                              *)
EXTENDS Grid, Geo

VARIABLES gr,     \* register -> [g: grid, cls: class, mx, my: +1 or -1]
          maps,   \* register -> [r: grid register, t: map type]
          avs,    \* register -> [m: map register, pts: points added so far]
          memo    \* question -> answer

mvars == <<gr, maps, avs, memo>>

MapInit == gr = <<>> /\ maps = <<>> /\ avs = <<>> /\ memo = <<>>

With(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

-----------------------------------------------------------------------------
(* Cells *)

Corners(g, a, b) == <<Node(g, a, b), Node(g, a + 1, b), Node(g, a + 1, b + 1), Node(g, a, b + 1)>>

Contains(g, c, p) == CellCO(g, c[1], c[2]) /\ InQuad(Corners(g, c[1], c[2]), p)

CellsAt(g, p) == {c \in (0..(g.nx - 2)) \X (0..(g.ny - 2)) : Contains(g, c, p)}

NodesOf(g) == {n \in (0..(g.nx - 1)) \X (0..(g.ny - 1)) : Ok(g, n[1], n[2])}

\* the valid nodes nearest to p
NearestNodes(g, p) ==
  LET s == TLCEval([n \in NodesOf(g) |-> SqDist(Node(g, n[1], n[2]), p)])
      d == TLCEval(CHOOSE d \in {s[n] : n \in DOMAIN s} : \A n \in DOMAIN s : d <= s[n])
  IN  {n \in DOMAIN s : s[n] = d}

\* a kd-tree search must succeed here
MustFind(g, p, at) ==
  LET nn == NearestNodes(g, p)
  IN  /\ Cardinality(nn) = 1
      /\ \E n \in nn : \E c \in at : c[1] \in {n[1] - 1, n[1]} /\ c[2] \in {n[2] - 1, n[2]}

-----------------------------------------------------------------------------
(* Location: found (0/1) and cell (i, j) answer the question for point p.    *)
LocateOK(g, t, p, found, i, j) ==
  LET at == TLCEval(CellsAt(g, p))
  IN  /\ found = 1 => <<i, j>> \in at
      /\ found = 0 => IF t = 0 THEN at = {} ELSE at = {} \/ ~MustFind(g, p, at)

(* Fractional indices fi, fj are given in units of 2^-22.                    *)
Unit == 4194304
Near(a, b) == Abs(a - b) <= 4          \* within 1e-6

InCell(c, fi, fj) == /\ c[1] * Unit - 4 <= fi /\ fi <= (c[1] + 1) * Unit + 4
                     /\ c[2] * Unit - 4 <= fj /\ fj <= (c[2] + 1) * Unit + 4

\* Image of the fractional indices (I/8, J/8): nodes are multiples of 64, so
\* that images are whole numbers.
Image(g, I, J) ==
  LET a == IF I = 8 * (g.nx - 1) THEN g.nx - 2 ELSE I \div 8
      b == IF J = 8 * (g.ny - 1) THEN g.ny - 2 ELSE J \div 8
      u == I - 8 * a
      v == J - 8 * b
      \* only nodes with a weight are needed
      w == <<(8 - u) * (8 - v), u * (8 - v), u * v, (8 - u) * v>>
      q == Corners(g, a, b)
      need == {k \in 1..4 : w[k] # 0}
      s(c) == (w[1] * q[1][c] + w[2] * q[2][c] + w[3] * q[3][c] + w[4] * q[4][c])
  IN  IF \E k \in need : q[k][1] # 1 THEN Empty
      ELSE <<1, s(2) \div 64, s(3) \div 64>>

\* answer (fi, fj) for point p; ex, ey: distance of its image from p in units
\* of 2^-20; hint: <<1, I, J>> if p is the image of (I/8, J/8)
FracOK(g, t, p, found, fi, fj, back, ex, ey, span, hint) ==
  LET at == TLCEval(CellsAt(g, p))
  IN  /\ found = 1 => /\ \E c \in at : InCell(c, fi, fj)
                      /\ back = 1
                      /\ Abs(ex) <= span + 4 /\ Abs(ey) <= span + 4
                      /\ (hint[1] = 1) => Near(fi, hint[2] * (Unit \div 8)) /\ Near(fj, hint[3] * (Unit \div 8))
      /\ found = 0 => IF t = 0 THEN at = {} ELSE at = {} \/ ~MustFind(g, p, at)

-----------------------------------------------------------------------------
(* Boundary *)

(* The side, a set of two nodes, between neighbouring cells c and d *)
SideBetween(c, d) ==
  LET hi(x, y) == IF x > y THEN x ELSE y
  IN  IF d[1] = c[1] THEN {<<c[1], hi(c[2], d[2])>>, <<c[1] + 1, hi(c[2], d[2])>>}
      ELSE {<<hi(c[1], d[1]), c[2]>>, <<hi(c[1], d[1]), c[2] + 1>>}

Beside(c) == {<<c[1] + 1, c[2]>>, <<c[1] - 1, c[2]>>, <<c[1], c[2] + 1>>, <<c[1], c[2] - 1>>}

\* sides with a valid cell on one side only
OuterSides(cells) == UNION {{SideBetween(c, d) : d \in Beside(c) \ cells} : c \in cells}

\* w, a sequence of nodes <<i,j>>, is a boundary of the cells: it goes along
\* every outer side once and nowhere else, from the first valid node back to it
IsBoundary(g, w) ==
  LET cells == TLCEval(CellsCO(g))
      outer == TLCEval(OuterSides(cells))
      nodes == TLCEval(NodesOf(g))
      j0 == TLCEval(CHOOSE j \in {n[2] : n \in nodes} : \A n \in nodes : j <= n[2])
      row == TLCEval({n \in nodes : n[2] = j0})
      first == TLCEval(CHOOSE n \in row : \A m \in row : n[1] <= m[1])
  IN  IF cells = {} THEN w = <<>>
      ELSE /\ Len(w) = Cardinality(outer) + 1
           /\ w[1] = first /\ w[Len(w)] = first
           /\ {{w[k], w[k + 1]} : k \in 1..(Len(w) - 1)} = outer

-----------------------------------------------------------------------------
(* Actions *)

NewGrid(r, g, cls, mx, my) ==
  /\ gr' = With(gr, r, [g |-> g, cls |-> cls, mx |-> mx, my |-> my])
  /\ UNCHANGED <<maps, avs, memo>>

Mirrored(g, mx, my) == [g EXCEPT !.n = TLCEval([k \in DOMAIN g.n |-> IF g.n[k][1] = 1 THEN <<1, mx * g.n[k][2], my * g.n[k][3]>> ELSE g.n[k]])]

\* grid in register r is grid s mirrored
NewMirror(r, s, g, mx, my) ==
  /\ g = Mirrored(gr[s].g, mx * gr[s].mx, my * gr[s].my)
  /\ NewGrid(r, g, gr[s].cls, mx, my)

BuildMap(m, r, t) ==
  /\ r \in DOMAIN gr
  /\ maps' = With(maps, m, [r |-> r, t |-> t])
  /\ UNCHANGED <<gr, avs, memo>>

FreeMap(m) == /\ m \in DOMAIN maps
              /\ maps' = Without(maps, m)
              /\ UNCHANGED <<gr, avs, memo>>

G(m) == gr[maps[m].r]

\* the question in the frame of its class; a kd-tree map may choose either of
\* two nearest nodes, so there such questions are compared between grids with
\* the same mirroring only
Tied(m, p) == maps[m].t = 1 /\ Cardinality(NearestNodes(G(m).g, p)) > 1
Question(m, p) == <<G(m).cls, maps[m].t, G(m).mx * p[1], G(m).my * p[2],
                    IF Tied(m, p) THEN <<G(m).mx, G(m).my>> ELSE <<>> >>

SameAnswer(kind, q, a) == (<<kind, q>> \in DOMAIN memo) =>
  LET b == memo[<<kind, q>>] IN
  IF kind = "fij" THEN a[1] = b[1] /\ (a[1] = 1 => Near(a[2], b[2]) /\ Near(a[3], b[3])) ELSE a = b

Remember(kind, q, a) ==
  /\ SameAnswer(kind, q, a)
  /\ memo' = IF <<kind, q>> \in DOMAIN memo THEN memo ELSE With(memo, <<kind, q>>, a)

\* physical point to cell
Locate(m, p, found, i, j) ==
  /\ LocateOK(G(m).g, maps[m].t, p, found, i, j) = TRUE
  /\ \E q \in {Question(m, p)} : Remember("ij", q, IF found = 1 THEN <<1, i, j>> ELSE <<0>>)
  /\ UNCHANGED <<gr, maps, avs>>

\* physical point to fractional indices
Fractional(m, p, found, fi, fj, back, ex, ey, span, hint) ==
  /\ FracOK(G(m).g, maps[m].t, p, found, fi, fj, back, ex, ey, span, hint) = TRUE
  /\ \E q \in {Question(m, p)} :
       \* succeeds exactly if location does (if that was asked already)
       /\ <<"ij", q>> \in DOMAIN memo => memo[<<"ij", q>>][1] = found
       /\ Remember("fij", q, IF found = 1 THEN <<1, fi, fj>> ELSE <<0>>)
  /\ UNCHANGED <<gr, maps, avs>>

\* a point with a non-finite coordinate is nowhere
Nowhere(found) == found = 0 /\ UNCHANGED mvars

\* fractional indices (I/8, J/8) inside the grid to a physical point
Physical(m, I, J, ok, nd) ==
  /\ ok = 1
  /\ nd = Image(G(m).g, I, J)
  /\ UNCHANGED mvars

Clamp(I, n) == IF I < 0 THEN 0 ELSE IF I > 8 * n THEN 8 * n ELSE I

\* outside of it: failure, and the image of the nearest indices inside (in
\* units of 2^-10, to within two of them)
PhysicalOut(m, I, J, ok, nd) ==
  /\ ok = 0
  /\ LET g == G(m).g
         e == Image(g, Clamp(I, g.nx - 1), Clamp(J, g.ny - 1))
     IN  IF e[1] = 1 THEN nd[1] = 1 /\ Abs(nd[2] - 1024 * e[2]) <= 2 /\ Abs(nd[3] - 1024 * e[3]) <= 2
         ELSE nd = Empty
  /\ UNCHANGED mvars

\* no numbers: failure and no result
PhysicalNaN(ok, nd) == ok = 0 /\ nd = Empty /\ UNCHANGED mvars

Boundary(r, w, nodes) ==
  /\ IsBoundary(gr[r].g, w) = TRUE
  /\ Len(nodes) = Len(w)
  /\ \A k \in 1..Len(w) : nodes[k] = <<Node(gr[r].g, w[k][1], w[k][2])[2], Node(gr[r].g, w[k][1], w[k][2])[3]>>
  /\ UNCHANGED mvars

-----------------------------------------------------------------------------
(* Averaging: points <<x, y, z, n>>, added n times, not on sides of cells *)

NewAverager(a, m) == /\ m \in DOMAIN maps
                     /\ avs' = With(avs, a, [m |-> m, pts |-> <<>>])
                     /\ UNCHANGED <<gr, maps, memo>>

AddPoints(a, ps) == /\ a \in DOMAIN avs
                    /\ avs' = [avs EXCEPT ![a].pts = @ \o ps]
                    /\ UNCHANGED <<gr, maps, memo>>

RECURSIVE SumZ(_, _)
SumZ(s, k) == IF k > Len(s) THEN 0 ELSE s[k][3] * s[k][4] + SumZ(s, k + 1)
RECURSIVE SumN(_, _)
SumN(s, k) == IF k > Len(s) THEN 0 ELSE s[k][4] + SumN(s, k + 1)

\* value v[2] + v[3] / 1024, rounded to that; <<0, 0, 0>>: none
AverageOK(g, pts, p, v) ==
  LET at == TLCEval(CellsAt(g, p))
      mine == TLCEval(SelectSeq(pts, LAMBDA q : \E c \in at : InsideQuad(Corners(g, c[1], c[2]), <<q[1], q[2]>>)))
      n == TLCEval(SumN(mine, 1))
      rest == TLCEval(SumZ(mine, 1) - v[2] * n)
  IN  IF at = {} \/ n = 0 THEN v = <<0, 0, 0>>
      ELSE v[1] = 1 /\ Abs(rest) <= n /\ Abs(v[3] * n - 1024 * rest) <= n

Average(a, p, v) == AverageOK(G(avs[a].m).g, avs[a].pts, p, v) = TRUE /\ UNCHANGED mvars

FreeAverager(a) == a \in DOMAIN avs /\ avs' = Without(avs, a) /\ UNCHANGED <<gr, maps, memo>>
=============================================================================
