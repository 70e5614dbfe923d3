-------------------------------- MODULE Grid --------------------------------
(* Grid node arrays as mathematical objects, and the operations on them.     *)
(*                                                                           *)
(* A node is <<v, x, y>>: <<0,0,0>> is an empty node (NaN NaN), <<1,x,y>> a  *)
(* node with coordinates.  Observations may also contain <<2,..>> (only one  *)
(* coordinate is NaN) and <<3,..>> (a value that no exact computation gives);*)
(* no operator below ever yields these, so they never match.                 *)
(* A grid is [t, nx, ny, m, n]: node type, number of columns and rows, map   *)
(* type, and the nodes row by row.  Node (i,j) is column i, row j, from 0.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == <<0, 0, 0>>

Types == {"NO", "DD", "CE", "CO"}

GridOf(t, nx, ny, m, f(_, _)) ==
  [t |-> t, nx |-> nx, ny |-> ny, m |-> m,
   n |-> TLCEval([k \in 1..(nx * ny) |-> f((k - 1) % nx, (k - 1) \div nx)])]

Node(g, i, j) == g.n[j * g.nx + i + 1]

\* node (i,j) exists and has coordinates
Ok(g, i, j) == /\ i >= 0 /\ j >= 0 /\ i < g.nx /\ j < g.ny
               /\ g.n[j * g.nx + i + 1][1] = 1

MapNodes(g, f(_, _)) ==
  [g EXCEPT !.n = TLCEval([k \in 1..(g.nx * g.ny) |->
                             f((k - 1) % g.nx, (k - 1) \div g.nx)])]

-----------------------------------------------------------------------------
(* Validation *)

\* cell (a,b) of a corner grid has all its corners
CellCO(g, a, b) == Ok(g, a, b) /\ Ok(g, a + 1, b) /\ Ok(g, a, b + 1) /\ Ok(g, a + 1, b + 1)

KeepCO(g, i, j) == \E a \in {i - 1, i}, b \in {j - 1, j} : CellCO(g, a, b)

ValidateCO(g) == MapNodes(g, LAMBDA i, j : IF KeepCO(g, i, j) THEN Node(g, i, j) ELSE Empty)

\* cell (a,b) of a double density grid has all its corners
CellDD(g, a, b) == Ok(g, 2*a, 2*b) /\ Ok(g, 2*a + 2, 2*b) /\ Ok(g, 2*a, 2*b + 2) /\ Ok(g, 2*a + 2, 2*b + 2)

CornerDD(g, i, j) == \E a \in {(i \div 2) - 1, i \div 2}, b \in {(j \div 2) - 1, j \div 2} : CellDD(g, a, b)

KeepDD(g, i, j) ==
  CASE i % 2 = 0 /\ j % 2 = 0 -> CornerDD(g, i, j)
    [] i % 2 = 1 /\ j % 2 = 1 -> CellDD(g, i \div 2, j \div 2)
    [] i % 2 = 1 /\ j % 2 = 0 -> CornerDD(g, i - 1, j) /\ CornerDD(g, i + 1, j)
    [] OTHER                  -> CornerDD(g, i, j - 1) /\ CornerDD(g, i, j + 1)

ValidateDD(g) == MapNodes(g, LAMBDA i, j :
                    IF Ok(g, i, j) /\ KeepDD(g, i, j) THEN Node(g, i, j) ELSE Empty)

Validate(g) == CASE g.t = "CO" -> ValidateCO(g)
                 [] g.t = "DD" -> ValidateDD(g)
                 [] OTHER      -> g

\* number of cells in each direction (-1: not defined)
NCE1(g) == CASE g.t = "DD" -> (g.nx - 1) \div 2 [] g.t = "CO" -> g.nx - 1
             [] g.t = "CE" -> g.nx [] OTHER -> -1
NCE2(g) == CASE g.t = "DD" -> (g.ny - 1) \div 2 [] g.t = "CO" -> g.ny - 1
             [] g.t = "CE" -> g.ny [] OTHER -> -1

\* the valid cells of a (validated) corner or double density grid
CellsCO(g) == {c \in (0..(g.nx - 2)) \X (0..(g.ny - 2)) : CellCO(g, c[1], c[2])}
CellsDD(g) == {c \in (0..(NCE1(g) - 1)) \X (0..(NCE2(g) - 1)) : Ok(g, 2 * c[1] + 1, 2 * c[2] + 1)}
NumCells(g) == IF g.t = "CO" THEN Cardinality(CellsCO(g)) ELSE Cardinality(CellsDD(g))

-----------------------------------------------------------------------------
(* Conversions between node types.  The argument is validated. *)

\* mean of the nodes in sequence s (empty if one of them is); coordinates are
\* chosen by the generators so that all means are whole numbers
Mean(s) ==
  IF \E k \in DOMAIN s : s[k][1] # 1 THEN Empty
  ELSE LET sx == IF Len(s) = 2 THEN s[1][2] + s[2][2] ELSE (s[1][2] + s[2][2]) + (s[3][2] + s[4][2])
           sy == IF Len(s) = 2 THEN s[1][3] + s[2][3] ELSE (s[1][3] + s[2][3]) + (s[3][3] + s[4][3])
       IN  IF sx % Len(s) = 0 /\ sy % Len(s) = 0
           THEN <<1, sx \div Len(s), sy \div Len(s)>>
           ELSE Assert(FALSE, <<"generator: mean is not a whole number", s>>)

DDtoCO(g) == GridOf("CO", g.nx \div 2 + 1, g.ny \div 2 + 1, g.m, LAMBDA i, j : Node(g, 2*i, 2*j))
DDtoCE(g) == GridOf("CE", g.nx \div 2, g.ny \div 2, g.m, LAMBDA i, j : Node(g, 2*i + 1, 2*j + 1))
COtoCE(g) == GridOf("CE", g.nx - 1, g.ny - 1, g.m,
               LAMBDA i, j : Mean(<<Node(g, i, j), Node(g, i+1, j), Node(g, i, j+1), Node(g, i+1, j+1)>>))
COtoDD(g) == GridOf("DD", 2 * g.nx - 1, 2 * g.ny - 1, g.m,
               LAMBDA i, j : LET a == i \div 2
                                 b == j \div 2
                             IN CASE i % 2 = 0 /\ j % 2 = 0 -> Node(g, a, b)
                                  [] i % 2 = 1 /\ j % 2 = 0 -> Mean(<<Node(g, a, b), Node(g, a+1, b)>>)
                                  [] i % 2 = 0 /\ j % 2 = 1 -> Mean(<<Node(g, a, b), Node(g, a, b+1)>>)
                                  [] OTHER -> Mean(<<Node(g, a, b), Node(g, a+1, b), Node(g, a, b+1), Node(g, a+1, b+1)>>))

(* From cell centres.  Positions are in half index units of the centre grid: *)
(* a corner (i,j) lies at (2i-1, 2j-1), a double density node (i,j) at       *)
(* (i-1, j-1), and the middle of the block of centres (a..a+1, b..b+1) at    *)
(* (2a+1, 2b+1).                                                             *)
Pos2(t, i) == IF t = "CO" THEN 2*i - 1 ELSE i - 1

Dist2(p, q, a, b) == (p - 2*a - 1) * (p - 2*a - 1) + (q - 2*b - 1) * (q - 2*b - 1)

\* blocks closer than 1.5 index units (3 half units)
NearBlocks(g, p, q) ==
  {c \in (((p - 5) \div 2)..((p + 3) \div 2)) \X (((q - 5) \div 2)..((q + 3) \div 2)) :
      Dist2(p, q, c[1], c[2]) < 9 /\ CellCO(g, c[1], c[2])}

NearestBlocks(g, p, q) ==
  LET s == TLCEval(NearBlocks(g, p, q))
  IN  {c \in s : \A d \in s : Dist2(p, q, c[1], c[2]) <= Dist2(p, q, d[1], d[2])}

\* bilinear extrapolation of block c at half-unit position (p,q)
Extrapolate(g, c, p, q) ==
  LET u == p - 2 * c[1]
      v == q - 2 * c[2]
      w(k) == (2-u)*(2-v)*Node(g, c[1], c[2])[k] + u*(2-v)*Node(g, c[1]+1, c[2])[k]
              + (2-u)*v*Node(g, c[1], c[2]+1)[k] + u*v*Node(g, c[1]+1, c[2]+1)[k]
  IN  IF w(2) % 4 = 0 /\ w(3) % 4 = 0 THEN <<1, w(2) \div 4, w(3) \div 4>>
      ELSE Assert(FALSE, "generator: extrapolated value is not a whole number")

\* which nodes have a value before validation
RebuildPattern(g, t) ==
  LET nx == IF t = "CO" THEN g.nx + 1 ELSE 2 * g.nx + 1
      ny == IF t = "CO" THEN g.ny + 1 ELSE 2 * g.ny + 1
  IN  GridOf(t, nx, ny, g.m, LAMBDA i, j :
        IF NearBlocks(g, Pos2(t, i), Pos2(t, j)) # {} THEN <<1, 0, 0>> ELSE Empty)

\* o is an allowed result of converting centre grid g to type t
IsRebuilt(g, t, o) ==
  \E p \in {Validate(RebuildPattern(g, t))} :   \* (evaluates it once)
      /\ o.t = t /\ o.nx = p.nx /\ o.ny = p.ny /\ o.m = g.m
      /\ Len(o.n) = Len(p.n)
      /\ \A k \in 1..Len(p.n) :
           IF p.n[k][1] = 0 THEN o.n[k] = Empty
           ELSE \E i \in {Pos2(t, (k - 1) % p.nx)}, j \in {Pos2(t, (k - 1) \div p.nx)} :
                   \E c \in NearestBlocks(g, i, j) : o.n[k] = Extrapolate(g, c, i, j)

\* a particular allowed result (used when exploring the specification itself)
Rebuild(g, t) ==
  LET p == Validate(RebuildPattern(g, t))
  IN  MapNodes(p, LAMBDA i, j : IF Node(p, i, j)[1] = 0 THEN Empty
                ELSE Extrapolate(g, CHOOSE c \in NearestBlocks(g, Pos2(t, i), Pos2(t, j)) : TRUE, Pos2(t, i), Pos2(t, j)))

CanTransform(g, t) ==
  \/ t \in {g.t, "NO"}
  \/ g.t \in {"DD", "CO", "CE"} /\ t \in {"DD", "CO", "CE"}

\* o is an allowed result of converting the validated grid g to type t
IsTransformed(g, t, o) ==
  IF t = g.t \/ t = "NO" THEN o = g
  ELSE CASE g.t = "DD" -> o = (IF t = "CO" THEN DDtoCO(g) ELSE DDtoCE(g))
         [] g.t = "CO" -> o = (IF t = "DD" THEN COtoDD(g) ELSE COtoCE(g))
         [] g.t = "CE" -> IsRebuilt(g, t, o)

Transform(g, t) ==
  IF t = g.t \/ t = "NO" THEN g
  ELSE CASE g.t = "DD" -> (IF t = "CO" THEN DDtoCO(g) ELSE DDtoCE(g))
         [] g.t = "CO" -> (IF t = "DD" THEN COtoDD(g) ELSE COtoCE(g))
         [] g.t = "CE" -> Rebuild(g, t)

-----------------------------------------------------------------------------
(* Masks: a sequence of 0/1 per cell, row by row *)

MaskCE(g, mk) == MapNodes(g, LAMBDA i, j : IF mk[j * g.nx + i + 1] = 0 THEN Empty ELSE Node(g, i, j))

MaskDDcentres(g, mk) ==
  MapNodes(g, LAMBDA i, j :
     IF i % 2 = 1 /\ j % 2 = 1 /\ mk[(j \div 2) * NCE1(g) + (i \div 2) + 1] = 0 THEN Empty ELSE Node(g, i, j))

MaskDDcorners(g) ==
  MapNodes(g, LAMBDA i, j :
     IF i % 2 = 0 /\ j % 2 = 0 /\ \A a \in {i - 1, i + 1}, b \in {j - 1, j + 1} : ~Ok(g, a, b)
     THEN Empty ELSE Node(g, i, j))

ApplyMask(g, mk) == IF g.t = "CE" THEN MaskCE(g, mk)
                    ELSE ValidateDD(MaskDDcorners(MaskDDcentres(g, mk)))

-----------------------------------------------------------------------------
(* Index windows, insertion *)

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

ClipLo(a) == Max(a, 0)
ClipHi(a, n) == Min(a, n - 1)

WindowEmpty(g, i1, i2, j1, j2) == \/ ClipLo(i1) > ClipHi(i2, g.nx) \/ ClipLo(j1) > ClipHi(j2, g.ny)

Window(g, i1, i2, j1, j2) ==
  LET a == ClipLo(i1)
      b == ClipLo(j1)
  IN  GridOf(g.t, ClipHi(i2, g.nx) - a + 1, ClipHi(j2, g.ny) - b + 1, g.m,
             LAMBDA i, j : Node(g, a + i, b + j))

\* grid b placed at (i0,j0) of grid a; with mg an empty node of b is transparent
Insert(a, b, i0, j0, mg, t) ==
  LET ox == Min(0, i0)
      oy == Min(0, j0)
      nx == Max(a.nx, i0 + b.nx) - ox
      ny == Max(a.ny, j0 + b.ny) - oy
      In(g, i, j) == i >= 0 /\ j >= 0 /\ i < g.nx /\ j < g.ny
      At(i, j) == LET bi == i + ox - i0
                      bj == j + oy - j0
                      ai == i + ox
                      aj == j + oy
                  IN  IF In(b, bi, bj) /\ ~(mg /\ In(a, ai, aj) /\ Node(b, bi, bj)[1] = 0) THEN Node(b, bi, bj)
                      ELSE IF In(a, ai, aj) THEN Node(a, ai, aj)
                      ELSE Empty
  IN  GridOf(t, nx, ny, 0, At)
=============================================================================
