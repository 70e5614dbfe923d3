-------------------------------- MODULE Tools --------------------------------
(* The command line programs as transitions of a workspace of files.  A       *)
(* program reads files (one of them possibly as standard input), writes its   *)
(* answer to standard output, which becomes a new file, and changes no file   *)
(* that was there - or it refuses with an error.                              *)
(*                                                                           *)
(* A file is [e, L]: whether it exists, and its lines.  A line is a record    *)
(*   h  <<nx, ny>> if it is a size header, else <<>>                          *)
(*   v  its leading numbers: <<1, value>>, <<0>> for NaN, <<2>> for a word,   *)
(*      <<3>> for a number no exact computation gives                         *)
(*   m  0 or 1 if it is just that digit, else -1                              *)
(*   r  what follows the first two numbers (an identity), x all of its text   *)
(* of which only the fields needed for the kind of file are present.          *)
EXTENDS Stats, Bathy

VARIABLE fs

PolyFns == INSTANCE Poly WITH polys <- fs, files <- fs, open <- fs

ToolsInit == fs = <<>>

MaxInt == 2147483647

\* outcomes: ok = 1 answered, 0 refused with an error, 2 anything else
Answered(e) == e.ok = 1
Refused(e) == e.ok = 0

-----------------------------------------------------------------------------
(* Grid files *)

IsNumber(k) == k[1] = 1

SizeOK(h, t) == /\ h[1] >= 1 /\ h[2] >= 1 /\ h[1] <= MaxInt \div h[2]
                /\ t = "DD" => h[1] % 2 = 1 /\ h[2] % 2 = 1

GridOK(f, t) == /\ f.e = 1 /\ Len(f.L) > 0
                /\ f.L[1].h # <<>>
                /\ SizeOK(f.L[1].h, t)
                /\ Len(f.L) - 1 >= f.L[1].h[1] * f.L[1].h[2]

NodeOfLine(ln) == IF Len(ln.v) >= 2 /\ IsNumber(ln.v[1]) /\ IsNumber(ln.v[2])
                  THEN <<1, ln.v[1][2], ln.v[2][2]>> ELSE Empty

ReadGrid(f, t) ==
  LET h == f.L[1].h IN
  [t |-> t, nx |-> h[1], ny |-> h[2], m |-> 0,
   n |-> TLCEval([k \in 1..(h[1] * h[2]) |-> NodeOfLine(f.L[k + 1])])]

\* what is left of a file after a grid was read from it
AfterGrid(f) == SubSeq(f.L, f.L[1].h[1] * f.L[1].h[2] + 2, Len(f.L))

LineOfNode(nd) == IF nd[1] = 1 THEN <<<<1, nd[2]>>, <<1, nd[3]>>>> ELSE <<<<0>>, <<0>>>>

\* out is the grid of nx x ny nodes nd(k), written
IsWritten(out, nx, ny, nd(_)) ==
  /\ Len(out) = nx * ny + 1
  /\ out[1].h = <<nx, ny>>
  /\ \A k \in 1..(nx * ny) : out[k + 1].v = LineOfNode(nd(k))

\* out is a grid written, with the nodes observed
Written(out) == /\ Len(out) > 0 /\ out[1].h # <<>>
                /\ SizeOK(out[1].h, "NO")
                /\ Len(out) = out[1].h[1] * out[1].h[2] + 1
                /\ \A k \in 2..Len(out) : \/ out[k].v = <<<<0>>, <<0>>>>
                                          \/ Len(out[k].v) = 2 /\ out[k].v[1][1] \in {1, 3} /\ out[k].v[2][1] \in {1, 3}

NodeWritten(ln) == IF ln.v[1][1] = 0 THEN Empty
                   ELSE IF ln.v[1][1] = 3 \/ ln.v[2][1] = 3 THEN <<3, 0, 0>>
                   ELSE <<1, ln.v[1][2], ln.v[2][2]>>

GridWritten(out, t) ==
  [t |-> t, nx |-> out[1].h[1], ny |-> out[1].h[2], m |-> 0,
   n |-> TLCEval([k \in 1..(Len(out) - 1) |-> NodeWritten(out[k + 1])])]

\* col is out with only column c of the coordinates
IsColumn(col, out, c) ==
  /\ Len(col) = Len(out) /\ col[1].h = out[1].h
  /\ \A k \in 2..Len(out) : col[k].v = <<out[k].v[c]>>

-----------------------------------------------------------------------------
(* getnodes *)

\* a mask is read from the lines of a file, one value per cell
MaskOK(lines, n) == Len(lines) >= n /\ \A k \in 1..n : lines[k].m \in {0, 1}
MaskOf(lines, n) == TLCEval([k \in 1..n |-> lines[k].m])

\* longitudes along a column after unfolding; jumps of more than half a turn
\* between neighbours are drops
Turn(e) == e.turn          \* one turn, in units of the coordinates
RECURSIVE Unfold(_, _, _, _)
Unfold(g, i, j, turn) ==
  LET nd == Node(g, i, j) IN
  IF nd[1] = 0 \/ j = 0 THEN nd
  ELSE LET up == Unfold(g, i, j - 1, turn)
       IN  IF up[1] = 1 /\ 2 * Abs(nd[2] - up[2]) > turn THEN <<1, nd[2] + turn, nd[3]>> ELSE nd

\* a jump between two nodes of a row
Jump(a, b, turn) == a[1] = 1 /\ b[1] = 1 /\ (2 * Abs(a[2] - b[2]) > turn \/ 4 * Abs(a[3] - b[3]) > turn)

IsUnfolded(g, o, turn) ==
  \E u \in {MapNodes(g, LAMBDA i, j : Unfold(g, i, j, turn))} :
    /\ o.nx = g.nx /\ o.ny = g.ny /\ Len(o.n) = Len(g.n)
    /\ \A k \in 1..Len(g.n) :
         LET i == (k - 1) % g.nx
             j == (k - 1) \div g.nx
         IN  \/ o.n[k] = u.n[k]
             \/ /\ o.n[k] = Empty
                /\ \/ i > 0 /\ Jump(Node(u, i - 1, j), u.n[k], turn)
                   \/ i < g.nx - 1 /\ Jump(u.n[k], Node(u, i + 1, j), turn)
    /\ \A i \in 1..(g.nx - 1), j \in 0..(g.ny - 1) : ~Jump(Node(o, i - 1, j), Node(o, i, j), turn)

\* o is rebuilt from the centre grid g, with the pattern of empty nodes of p
IsRebuiltAs(g, t, p, o) ==
  /\ o.nx = p.nx /\ o.ny = p.ny /\ Len(o.n) = Len(p.n)
  /\ \A k \in 1..Len(p.n) :
       IF p.n[k][1] = 0 THEN o.n[k] = Empty
       ELSE \E i \in {Pos2(t, (k - 1) % p.nx)}, j \in {Pos2(t, (k - 1) \div p.nx)} :
               \E c \in NearestBlocks(g, i, j) : o.n[k] = Extrapolate(g, c, i, j)

\* e.mf: where the mask comes from, "" if there is none, "-" the rest of the grid file
MaskLines(e) == IF e.mf = "-" THEN AfterGrid(fs[e.g]) ELSE fs[e.mf].L
Masked(e) == e.mf # ""

Pipeline(g, e, o) ==
  IF e.i = "CE" /\ e.o # "CE"
  THEN \E p0 \in {Validate(RebuildPattern(g, e.o))} :
         \E p \in {IF Masked(e) THEN ApplyMask(p0, MaskOf(MaskLines(e), NCE1(p0) * NCE2(p0))) ELSE p0} :
           IsRebuiltAs(g, e.o, p, o)
  ELSE \E a \in {Transform(g, e.o)} :
         \E b \in {IF Masked(e) THEN ApplyMask(a, MaskOf(MaskLines(e), NCE1(a) * NCE2(a))) ELSE a} :
           IF e.p = 1 THEN IsUnfolded(b, o, e.turn) ELSE o = b

\* number of cells of the result
CellsOut(g, e) ==
  LET a == CASE e.i = "DD" -> (g.nx \div 2) * (g.ny \div 2)
             [] e.i = "CO" -> (g.nx - 1) * (g.ny - 1)
             [] OTHER -> g.nx * g.ny
  IN  a

BadMask(g, e) == /\ Masked(e)
                 /\ \/ e.o = "CO"
                    \/ e.mf # "-" /\ fs[e.mf].e = 0
                    \/ ~MaskOK(MaskLines(e), CellsOut(g, e))

GetNodes(e) ==
  IF ~GridOK(fs[e.g], e.i) THEN Refused(e)
  ELSE \E g \in {Validate(ReadGrid(fs[e.g], e.i))} :
         IF BadMask(g, e) THEN Refused(e)
         ELSE /\ Answered(e) /\ Written(e.out)
              /\ Pipeline(g, e, GridWritten(e.out, e.o)) = TRUE
              /\ e.ox # <<>> => IsColumn(e.ox, e.out, 1)
              /\ e.oy # <<>> => IsColumn(e.oy, e.out, 2)
              \* figures reported (option -v); without a valid cell there are none
              /\ e.fig.p = 1 => FiguresOf(GridWritten(e.out, e.o), e.fig) = TRUE

-----------------------------------------------------------------------------
(* subgrid, insertgrid *)

SubGridRun(e) ==
  IF ~GridOK(fs[e.g], "NO") THEN Refused(e)
  ELSE \E g \in {ReadGrid(fs[e.g], "NO")} :
         IF WindowEmpty(g, e.i1, e.i2, e.j1, e.j2) THEN Refused(e)
         ELSE /\ Answered(e)
              /\ \E w \in {Window(g, e.i1, e.i2, e.j1, e.j2)} : IsWritten(e.out, w.nx, w.ny, LAMBDA k : w.n[k])
              /\ e.ox # <<>> => IsColumn(e.ox, e.out, 1)
              /\ e.oy # <<>> => IsColumn(e.oy, e.out, 2)

InsertRun(e) ==
  IF ~GridOK(fs[e.a], "NO") \/ ~GridOK(fs[e.b], "NO") THEN Refused(e)
  ELSE \E w \in {Insert(ReadGrid(fs[e.a], "NO"), ReadGrid(fs[e.b], "NO"), e.i0, e.j0, e.m = 1, e.t)} :
         IF e.t = "DD" /\ (w.nx % 2 = 0 \/ w.ny % 2 = 0) THEN Refused(e)
         ELSE /\ Answered(e)
              /\ \E v \in {Validate(w)} : IsWritten(e.out, v.nx, v.ny, LAMBDA k : v.n[k])

-----------------------------------------------------------------------------
(* setbathy *)

\* e.nx, e.ny: size from the command line (-1: from the header)
SetSize(f, e) == IF e.nx >= 0 THEN <<e.nx, e.ny>>
                 ELSE IF Len(f.L) > e.off THEN f.L[e.off + 1].h ELSE <<>>

SetOK(f, e) == /\ f.e = 1 /\ e.z # 0
               /\ Len(f.L) >= e.off
               /\ \E s \in {SetSize(f, e)} :
                     /\ s # <<>> /\ s[1] >= 1 /\ s[2] >= 1 /\ s[1] <= MaxInt \div s[2]
                     /\ Len(f.L) - e.off - (IF e.nx >= 0 THEN 0 ELSE 1) >= s[1] * s[2]

InRange(a, lo, hi) == lo <= a /\ a <= hi

SetBathy(e) ==
  LET f == fs[e.g] IN
  IF ~SetOK(f, e) THEN Refused(e)
  ELSE \E s \in {SetSize(f, e)}, h \in {IF e.nx >= 0 THEN 0 ELSE 1} :
         /\ Answered(e)
         /\ Len(e.out) = Len(f.L) - h
         /\ \A k \in 1..Len(e.out) :
              IF k <= e.off THEN e.out[k].x = f.L[k].x
              ELSE \E c \in {k - e.off - 1} :
                     IF c < s[1] * s[2] /\ InRange(c % s[1], e.i1, e.i2) /\ InRange(c \div s[1], e.j1, e.j2)
                     THEN e.out[k].x = e.z
                     ELSE e.out[k].x = f.L[k + h].x

-----------------------------------------------------------------------------
(* getbound *)

CornerGrid(f, t) == IF t = "DD" THEN DDtoCO(ValidateDD(ReadGrid(f, "DD"))) ELSE ValidateCO(ReadGrid(f, "CO"))

\* polygon file: a count, then as many vertices
IsPolyFile(L) == /\ Len(L) > 0 /\ L[1].h = <<Len(L) - 1>>
                 /\ \A k \in 2..Len(L) : Len(L[k].v) = 2 /\ IsNumber(L[k].v[1]) /\ IsNumber(L[k].v[2])
VertexOf(ln) == <<ln.v[1][2], ln.v[2][2]>>
Vertices(L) == TLCEval([k \in 1..(Len(L) - 1) |-> VertexOf(L[k + 1])])

\* out: physical boundary, oij: in index space (option -r), oc and ocij: the
\* same two compacted
GetBound(e) ==
  IF ~GridOK(fs[e.g], e.i) THEN Refused(e)
  ELSE \E g \in {CornerGrid(fs[e.g], e.i)} :
         /\ Answered(e)
         /\ IsPolyFile(e.out) /\ IsPolyFile(e.oij) /\ IsPolyFile(e.oc) /\ IsPolyFile(e.ocij)
         /\ \E w \in {Vertices(e.oij)}, p \in {Vertices(e.out)} :
              /\ IsBoundary(g, w) = TRUE
              /\ Len(p) = Len(w)
              /\ \A k \in 1..Len(w) : p[k] = <<Node(g, w[k][1], w[k][2])[2], Node(g, w[k][1], w[k][2])[3]>>
              /\ Vertices(e.oc) = PolyFns!Compacted(p)
              /\ Vertices(e.ocij) = PolyFns!Compacted(w)

-----------------------------------------------------------------------------
(* xy2ij *)

\* a line that starts with two numbers (NaN counts as one)
IsPointLine(ln) == Len(ln.v) >= 2 /\ ln.v[1][1] \in {0, 1} /\ ln.v[2][1] \in {0, 1}
Finite(ln) == ln.v[1][1] = 1 /\ ln.v[2][1] = 1

(* An answer line is [k |-> "num", fi, fj, x, y, r] (fractional indices in    *)
(* units of 2^-22, or exact coordinates), [k |-> "nan", r] or [k |-> "text",  *)
(* x].  Allowed answers to line ln, and whether the program goes on:          *)
NaNAnswer(a, ln) == a.k = "nan" /\ a.r = ln.r

\* from physical to index space
ToIndexFound(g, t, ln, a) ==
  /\ a.k = "num" /\ a.r = ln.r /\ Finite(ln)
  /\ \E c \in CellsAt(g, <<ln.v[1][2], ln.v[2][2]>>) : InCell(c, a.fi, a.fj)

MayBeOutside(g, t, ln) ==
  \/ ~Finite(ln)
  \/ \E p \in {<<ln.v[1][2], ln.v[2][2]>>} :
       LET at == CellsAt(g, p) IN IF t = 0 THEN at = {} ELSE at = {} \/ ~MustFind(g, p, at)

\* from index space; indices are in eighths
Index8(g, ln) == Finite(ln) /\ ln.v[1][2] >= 0 /\ ln.v[1][2] <= 8 * (g.nx - 1) /\ ln.v[2][2] >= 0 /\ ln.v[2][2] <= 8 * (g.ny - 1)

ToPhysical(g, ln, a) ==
  \E nd \in {Image(g, ln.v[1][2], ln.v[2][2])} :
     IF nd[1] = 0 THEN NaNAnswer(a, ln)
     ELSE a.k = "num" /\ a.r = ln.r /\ a.x = nd[2] /\ a.y = nd[3]

RECURSIVE Answers(_, _, _, _)
\* lines k.. of the input against the answers
Answers(g, e, L, k) ==
  IF k > Len(L) THEN Answered(e) /\ Len(e.out) = Len(L)
  ELSE LET ln == L[k]
           has == k <= Len(e.out)
           stop == Refused(e) /\ e.force = 0 /\ Len(e.out) = k - 1
           next == Answers(g, e, L, k + 1)
       IN  IF ~IsPointLine(ln) THEN has /\ e.out[k].k = "text" /\ e.out[k].x = ln.x /\ next
           ELSE IF e.rev = 1
                THEN IF Index8(g, ln) THEN has /\ ToPhysical(g, ln, e.out[k]) /\ next
                     ELSE IF e.force = 1 THEN has /\ NaNAnswer(e.out[k], ln) /\ next ELSE stop
                ELSE \/ has /\ ToIndexFound(g, e.t, ln, e.out[k]) /\ next
                     \/ /\ MayBeOutside(g, e.t, ln)
                        /\ IF e.force = 1 THEN has /\ NaNAnswer(e.out[k], ln) /\ next ELSE stop

\* e.total, e.good, e.bad: totals reported (-1: not asked)
Totals(e, L) ==
  e.total >= 0 =>
    /\ e.total = Cardinality({k \in 1..Len(L) : IsPointLine(L[k])})
    /\ e.good = Cardinality({k \in 1..Len(e.out) : e.out[k].k = "num"})
    /\ e.bad = e.total - e.good

\* where points are read from: "-" is the rest of the grid file
PointLines(e) == IF e.pf = "-" THEN AfterGrid(fs[e.g]) ELSE fs[e.pf].L

Convert2(e) ==
  IF ~GridOK(fs[e.g], e.i) \/ (e.pf # "-" /\ fs[e.pf].e = 0) THEN Refused(e)
  ELSE \E g \in {CornerGrid(fs[e.g], e.i)} :
         /\ Answers(g, e, PointLines(e), 1) = TRUE
         /\ Answered(e) => Totals(e, PointLines(e))
         \* every line is answered as if it were the only one
         /\ e.solo = 1

-----------------------------------------------------------------------------
(* The library's own readers and writer, with an error handler of the user's *)

LibRead(e) ==
  IF ~GridOK(fs[e.g], e.i) THEN Refused(e)
  ELSE \E g \in {ReadGrid(fs[e.g], e.i)} :
         /\ Answered(e) /\ e.nx = g.nx /\ e.ny = g.ny /\ e.n = g.n
         \* written again: all of it, or one of the columns
         /\ CASE e.c = "xy" -> IsWritten(e.out, g.nx, g.ny, LAMBDA k : g.n[k])
              [] OTHER -> LET c == IF e.c = "x" THEN 1 ELSE 2 IN
                          /\ Len(e.out) = g.nx * g.ny + 1 /\ e.out[1].h = <<g.nx, g.ny>>
                          /\ \A k \in 1..(g.nx * g.ny) : e.out[k + 1].v = <<LineOfNode(g.n[k])[c]>>

LibMask(e) ==
  IF fs[e.g].e = 0 \/ ~MaskOK(fs[e.g].L, e.nx * e.ny) THEN Refused(e)
  ELSE Answered(e) /\ e.mask = MaskOf(fs[e.g].L, e.nx * e.ny)

-----------------------------------------------------------------------------
(* gridbathy *)

IsDataLine(ln) == Len(ln.v) >= 3 /\ IsNumber(ln.v[1]) /\ IsNumber(ln.v[2]) /\ IsNumber(ln.v[3])
DataOf(L) == LET s == SelectSeq(L, LAMBDA ln : IsDataLine(ln))
             IN  TLCEval([k \in 1..Len(s) |-> <<s[k].v[1][2], s[k].v[2][2], s[k].v[3][2]>>])

GridBathy(e) ==
  IF \/ e.a < 0 \/ e.a > 4 \/ e.n < 1 \/ e.n > 10 \/ (e.r = 1 /\ e.lo >= e.hi)
     \/ e.i \notin {"DD", "CO"} \/ fs[e.b].e = 0 \/ ~GridOK(fs[e.g], e.i)
     \/ Len(DataOf(fs[e.b].L)) < 3
  THEN Refused(e)
  ELSE \E g \in {CornerGrid(fs[e.g], e.i)} :
         LET n == (g.nx - 1) * (g.ny - 1)
             maskbad == e.mf # "" /\ (fs[e.mf].e = 0 \/ ~MaskOK(fs[e.mf].L, n))
         IN  IF maskbad \/ (e.c # <<>> /\ ~InsideGrid(g, e.c)) THEN Refused(e)
             ELSE /\ Answered(e)
                  /\ Values(g, e, DataOf(fs[e.b].L), IF e.mf = "" THEN <<>> ELSE MaskOf(fs[e.mf].L, n)) = TRUE

-----------------------------------------------------------------------------
(* Steps of the workspace *)

Put(f, c) == fs' = With(fs, f, c)

\* the answer becomes file d
Result(d, e) == fs' = IF Answered(e) /\ d # "" THEN With(fs, d, [e |-> 1, L |-> e.out]) ELSE fs

\* a run with arguments that must be refused
BadArguments(e) == Refused(e)
=============================================================================
