------------------------------ MODULE GridTreeMC ------------------------------
(* The default mapping's construction on every simply connected arrangement   *)
(* of NX x NY cells: the walk along the boundary (one transition per side),   *)
(* then the division of the enclosed region in two, and again, by the first   *)
(* section of a grid line inside it (one transition per division).            *)
EXTENDS Geo, TLC

CONSTANTS NX, NY

VARIABLES cells,    \* set of valid cells <<i, j>>
          walk,     \* nodes visited so far
          dir,      \* current direction
          todo,     \* regions still to divide, each a sequence of nodes
          leaves,   \* regions that are not divided further
          phase

mvars == <<cells, walk, dir, todo, leaves, phase>>

AllCells == (0..(NX - 1)) \X (0..(NY - 1))
Corners(c) == {<<c[1] + a, c[2] + b>> : a \in {0, 1}, b \in {0, 1}}

\* a cell all of whose corners are corners of valid cells is valid itself
Closure(S) == {c \in AllCells : Corners(c) \subseteq UNION {Corners(d) : d \in S}}

Adjacent(c, d) == Abs(c[1] - d[1]) + Abs(c[2] - d[2]) = 1
Touching(c, d) == c # d /\ Abs(c[1] - d[1]) <= 1 /\ Abs(c[2] - d[2]) <= 1

RECURSIVE Reach(_, _, _)
Reach(S, from, diag) ==
  LET next == from \cup {c \in S : \E d \in from : IF diag THEN Touching(c, d) ELSE Adjacent(c, d)}
  IN  IF next = from THEN from ELSE Reach(S, next, diag)
Connected(S, diag) == S = {} \/ Reach(S, {CHOOSE c \in S : TRUE}, diag) = S
Outside(S) == ((-1..NX) \X (-1..NY)) \ S

\* no two valid cells touch at a node without sharing one of the other cells there
Pinched(S) == \E c \in S, d \in S : Touching(c, d) /\ ~Adjacent(c, d) /\ <<c[1], d[2]>> \notin S /\ <<d[1], c[2]>> \notin S

Simple(S) == S # {} /\ Closure(S) = S /\ Connected(S, FALSE) /\ Connected(Outside(S), TRUE) /\ ~Pinched(S)

-----------------------------------------------------------------------------
Valid(c) == c \in cells

\* directions: 0 along rows upwards in j, 1 upwards in i, 2 down in j, 3 down in i
Inc == <<<<0, 1>>, <<1, 0>>, <<0, -1>>, <<-1, 0>>>>
To(n, d) == <<n[1] + Inc[d + 1][1], n[2] + Inc[d + 1][2]>>
\* the side from node n in direction d belongs to a valid cell
IsCellSide(n, d) ==
  CASE d = 0 -> Valid(<<n[1] - 1, n[2]>>) \/ Valid(<<n[1], n[2]>>)
    [] d = 1 -> Valid(<<n[1], n[2] - 1>>) \/ Valid(<<n[1], n[2]>>)
    [] d = 2 -> Valid(<<n[1] - 1, n[2] - 1>>) \/ Valid(<<n[1], n[2] - 1>>)
    [] d = 3 -> Valid(<<n[1] - 1, n[2] - 1>>) \/ Valid(<<n[1] - 1, n[2]>>)

First == CHOOSE c \in cells : \A d \in cells : c[2] < d[2] \/ (c[2] = d[2] /\ c[1] <= d[1])

MInit == /\ cells \in {S \in SUBSET AllCells : Simple(S)}
         /\ walk = <<First>> /\ dir = 0 /\ todo = <<>> /\ leaves = <<>> /\ phase = "walk"

\* the first of the directions left of, along, right of the current one
NextDir(n) == LET f(k) == (dir + 3 + k) % 4 IN
              CHOOSE d \in {f(k) : k \in 0..2} : IsCellSide(n, d) /\ \A k \in 0..2 : IsCellSide(n, f(k)) => \E m \in 0..k : f(m) = d

Here == walk[Len(walk)]

Step == /\ phase = "walk"
        /\ Len(walk) = 1 \/ Here # walk[1]
        /\ dir' = NextDir(Here)
        /\ walk' = Append(walk, To(Here, dir'))
        /\ UNCHANGED <<cells, todo, leaves, phase>>

\* the closing node is not kept
Turn == /\ phase = "walk" /\ Len(walk) > 1 /\ Here = walk[1]
        /\ phase' = "divide"
        /\ todo' = <<SubSeq(walk, 1, Len(walk) - 1)>>
        /\ UNCHANGED <<cells, walk, dir, leaves>>

-----------------------------------------------------------------------------
Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Greatest(S) == CHOOSE a \in S : \A b \in S : b <= a
Range(w, k) == <<Least({w[m][k] : m \in 1..Len(w)}), Greatest({w[m][k] : m \in 1..Len(w)})>>

Pos(w, n) == IF \E k \in 1..Len(w) : w[k] = n THEN CHOOSE k \in 1..Len(w) : w[k] = n ELSE 0
\* geometry is that of a regular grid: nodes at even coordinates
Twice(n) == <<2 * n[1], 2 * n[2]>>
Inside(w, p) == InsideEvenOdd([k \in 1..Len(w) |-> Twice(w[k])], p)

\* node k of the grid line (axis: the index that is fixed)
OnLine(axis, index, k) == IF axis = 1 THEN <<index, k>> ELSE <<k, index>>

\* the way from node k to node k + 1 of the line is inside
Enters(w, axis, index, k) ==
  LET a == OnLine(axis, index, k)
      b == OnLine(axis, index, k + 1)
      pa == Pos(w, a)
      pb == Pos(w, b)
  IN  /\ pa > 0
      /\ IF pb = 0 THEN Inside(w, Twice(b))
         ELSE /\ Abs(pa - pb) > 1 /\ Abs(pa - pb) < Len(w) - 1
              /\ Inside(w, <<a[1] + b[1], a[2] + b[2]>>)

RECURSIVE Arc(_, _, _)
Arc(w, from, to) == IF from = to THEN <<>> ELSE <<w[from]>> \o Arc(w, (from % Len(w)) + 1, to)

Single(w) == Range(w, 1)[2] <= Range(w, 1)[1] + 1 /\ Range(w, 2)[2] <= Range(w, 2)[1] + 1

Axis(w) == IF Range(w, 1)[2] - Range(w, 1)[1] > Range(w, 2)[2] - Range(w, 2)[1] THEN 1 ELSE 2
Index(w) == LET r == Range(w, Axis(w)) IN (r[1] + r[2]) \div 2
Starts(w) == LET r == Range(w, 3 - Axis(w)) IN {k \in r[1]..(r[2] - 1) : Enters(w, Axis(w), Index(w), k)}

Divided(w) ==
  LET a == Axis(w)
      x == Index(w)
      k1 == Least(Starts(w))
      k2 == Least({k \in (k1 + 1)..(Range(w, 3 - a)[2]) : Pos(w, OnLine(a, x, k)) > 0})
      p1 == Pos(w, OnLine(a, x, k1))
      p2 == Pos(w, OnLine(a, x, k2))
  IN  <<Arc(w, p1, p2) \o [m \in 1..(k2 - k1) |-> OnLine(a, x, k2 + 1 - m)],
        Arc(w, p2, p1) \o [m \in 1..(k2 - k1) |-> OnLine(a, x, k1 - 1 + m)]>>

Divide == /\ phase = "divide" /\ todo # <<>>
          /\ LET w == todo[Len(todo)]
                 rest == SubSeq(todo, 1, Len(todo) - 1)
             IN  IF Single(w) THEN leaves' = Append(leaves, w) /\ todo' = rest
                 ELSE \E d \in {Divided(w)} : todo' = rest \o d /\ UNCHANGED leaves
          /\ UNCHANGED <<cells, walk, dir, phase>>

Done == phase = "divide" /\ todo = <<>> /\ UNCHANGED mvars

MNext == Step \/ Turn \/ Divide \/ Done

-----------------------------------------------------------------------------
CellsIn(w) == {c \in AllCells : Inside(w, <<2 * c[1] + 1, 2 * c[2] + 1>>)}

Outer == {s \in {{n, To(n, d)} : n \in (0..NX) \X (0..NY), d \in 0..3} :
            Cardinality({c \in cells : s \subseteq Corners(c)}) = 1}

\* the walk goes along outer sides only, none twice, and when it is back all
\* of them have been used
WalkLaw == /\ \A k \in 1..(Len(walk) - 1) : {walk[k], walk[k + 1]} \in Outer
           /\ Cardinality({{walk[k], walk[k + 1]} : k \in 1..(Len(walk) - 1)}) = Len(walk) - 1
           /\ phase = "divide" => Len(walk) - 1 = Cardinality(Outer)

Regions == todo \o leaves

\* the regions share out the cells
ShareLaw == phase = "divide" =>
  /\ UNION {CellsIn(Regions[k]) : k \in 1..Len(Regions)} = cells
  /\ \A k \in 1..Len(Regions) : \A m \in 1..Len(Regions) : k # m => CellsIn(Regions[k]) \cap CellsIn(Regions[m]) = {}
  /\ \A k \in 1..Len(Regions) : CellsIn(Regions[k]) # {}

\* a region can always be divided, and what is not divided is one cell
CutLaw == phase = "divide" =>
  /\ todo # <<>> => LET w == todo[Len(todo)] IN Single(w) \/ Starts(w) # {}
  /\ \A k \in 1..Len(leaves) : Cardinality(CellsIn(leaves[k])) = 1 /\ Len(leaves[k]) = 4

DoneLaw == (phase = "divide" /\ todo = <<>>) => Len(leaves) = Cardinality(cells)
=============================================================================
