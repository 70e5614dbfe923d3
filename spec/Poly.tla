--------------------------------- MODULE Poly ---------------------------------
(* Polylines as lists of points <<x, y>> in registers, and streams they are   *)
(* written to and read from.  One action per call.                            *)
EXTENDS Geo, TLC

VARIABLES polys,   \* register -> sequence of points
          files,   \* name -> sequence of lines
          open     \* handle -> [name, pos: lines read so far, w: 1 if writing]

pvars == <<polys, files, open>>

PolyInit == polys = <<>> /\ files = <<>> /\ open = <<>>

PWith(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
PWithout(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

-----------------------------------------------------------------------------
(* Lists of points (positions count from 0) *)

InsertAt(s, k, p) == IF k < 0 THEN s
                     ELSE IF k >= Len(s) THEN Append(s, p)
                     ELSE SubSeq(s, 1, k) \o <<p>> \o SubSeq(s, k + 1, Len(s))

DeleteAt(s, k) == SubSeq(s, 1, k) \o SubSeq(s, k + 2, Len(s))

Reversed(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

CloseTo(p, q, eps) == Abs(p[1] - q[1]) <= eps /\ Abs(p[2] - q[2]) <= eps

IsClosed(s, eps) == Len(s) > 1 /\ CloseTo(s[1], s[Len(s)], eps)

Closed(s) == IF Len(s) = 0 \/ IsClosed(s, 0) THEN s ELSE Append(s, s[1])

\* is a point kept, given the last one kept?
KeepIf(mode, eps, a, b) == IF mode = "thin" THEN ~CloseTo(a, b, eps) ELSE SqDist(a, b) < eps * eps

RECURSIVE KeepFrom(_, _, _, _, _)
KeepFrom(s, k, out, mode, eps) ==
  IF k > Len(s) THEN out
  ELSE KeepFrom(s, k + 1, IF KeepIf(mode, eps, out[Len(out)], s[k]) THEN Append(out, s[k]) ELSE out, mode, eps)

Thinned(s, eps) == IF Len(s) <= 1 THEN s ELSE KeepFrom(s, 2, <<s[1]>>, "thin", eps)
Despiked(s, d) == IF Len(s) <= 1 THEN s ELSE KeepFrom(s, 2, <<s[1]>>, "despike", d)

PosOf(s, p) == IF \E k \in 1..Len(s) : s[k] = p
               THEN (CHOOSE k \in 1..Len(s) : s[k] = p /\ \A m \in 1..(k - 1) : s[m] # p) - 1
               ELSE -1

Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Greatest(S) == CHOOSE a \in S : \A b \in S : b <= a
Box(s) == LET X == {s[k][1] : k \in 1..Len(s)}
              Y == {s[k][2] : k \in 1..Len(s)}
          IN  <<Least(X), Greatest(X), Least(Y), Greatest(Y)>>

-----------------------------------------------------------------------------
(* Compaction of a closed polygon without folds: its corners, in order *)

RECURSIVE Differing(_, _)
\* positions k..Len(s) of points that differ from the one before
Differing(s, k) == IF k > Len(s) THEN <<>>
                   ELSE IF s[k] = s[k - 1] THEN Differing(s, k + 1) ELSE <<s[k]>> \o Differing(s, k + 1)

\* no two successive points (cyclically) are equal
Distinct(s) == LET d == <<s[1]>> \o Differing(s, 2)
                   last == IF \E k \in 1..Len(d) : d[k] # d[1] THEN Greatest({k \in 1..Len(d) : d[k] # d[1]}) ELSE 1
               IN  SubSeq(d, 1, last)

Corner(d, k) == Cross(d[IF k = 1 THEN Len(d) ELSE k - 1], d[IF k = Len(d) THEN 1 ELSE k + 1], d[k]) # 0

Compacted(s) == IF Len(s) <= 4 THEN s
                ELSE LET d == TLCEval(Distinct(s))
                         k == SelectSeq([m \in 1..Len(d) |-> m], LAMBDA m : Corner(d, m))
                     IN  [m \in 1..Len(k) |-> d[k[m]]]

-----------------------------------------------------------------------------
(* Streams.  Lines: <<"p", x, y>> a point, <<"h", n>> the heading written     *)
(* before n points, <<"c">> a comment or blank, <<"x">> anything else         *)

Skipped(ln) == ln[1] \in {"c", "h"}

\* <<"n">>: two numbers, one of which is NaN

\* number of lines skipped from position k (lines read so far)
RECURSIVE SkipTo(_, _)
SkipTo(f, k) == IF k < Len(f) /\ Skipped(f[k + 1]) THEN SkipTo(f, k + 1) ELSE k
RECURSIVE PointsTo(_, _)
PointsTo(f, k) == IF k < Len(f) /\ f[k + 1][1] = "p" THEN PointsTo(f, k + 1) ELSE k

WrittenLines(s) == <<<<"h", Len(s)>>>> \o [k \in 1..Len(s) |-> <<"p", s[k][1], s[k][2]>>]

-----------------------------------------------------------------------------
(* Actions *)

PSet(r, s) == polys' = PWith(polys, r, s) /\ UNCHANGED <<files, open>>
PKeep == UNCHANGED pvars

PNew(r, s) == r \notin DOMAIN polys /\ PSet(r, s)
PAdd(r, p) == PSet(r, Append(polys[r], p))
\* a point that is not a number is refused
PAddNaN(r) == r \in DOMAIN polys /\ PKeep
PAddAt(r, k, p) == PSet(r, InsertAt(polys[r], k, p))
PAppend(r, q) == PSet(r, polys[r] \o polys[q])
PDelete(r, k) == k \in 0..(Len(polys[r]) - 1) /\ PSet(r, DeleteAt(polys[r], k))
PReverse(r) == PSet(r, Reversed(polys[r]))
PClose(r) == PSet(r, Closed(polys[r]))
PClear(r) == PSet(r, <<>>)
PCopy(d, s) == d \notin DOMAIN polys /\ PSet(d, polys[s])
PFree(r) == r \in DOMAIN polys /\ polys' = PWithout(polys, r) /\ UNCHANGED <<files, open>>
PThin(r, eps) == PSet(r, TLCEval(Thinned(polys[r], eps)))
PDespike(r, d) == PSet(r, TLCEval(Despiked(polys[r], d)))
PCompact(r) == PSet(r, TLCEval(Compacted(polys[r])))

PInside(r, p, ret) == /\ (ret = 1) = (Len(polys[r]) > 1 /\ InsideEvenOdd(polys[r], p))
                      /\ PKeep
PFind(r, p, ret) == ret = PosOf(polys[r], p) /\ PKeep
PClosedQ(r, eps, ret) == (ret = 1) = IsClosed(polys[r], eps) /\ PKeep
PArea(r, a2) == a2 = Area2(polys[r]) /\ PKeep

\* streams
FPut(name, ls) == files' = PWith(files, name, ls) /\ UNCHANGED <<polys, open>>
FOpen(h, name, w) == /\ w = 0 => name \in DOMAIN files
                     /\ files' = IF w = 1 THEN PWith(files, name, <<>>) ELSE files
                     /\ open' = PWith(open, h, [name |-> name, pos |-> 0, w |-> w])
                     /\ UNCHANGED polys
FClose(h) == h \in DOMAIN open /\ open' = PWithout(open, h) /\ UNCHANGED <<polys, files>>
PWrite(r, h) == /\ open[h].w = 1
                /\ files' = [files EXCEPT ![open[h].name] = @ \o WrittenLines(polys[r])]
                /\ UNCHANGED <<polys, open>>
\* skips comments and blanks, appends the points that follow, and consumes the
\* line after them
PRead(r, h, ret) ==
  LET f == files[open[h].name]
      a == SkipTo(f, open[h].pos)
      b == PointsTo(f, a)
      s == polys[r] \o [k \in 1..(b - a) |-> <<f[a + k][2], f[a + k][3]>>]
  IN  /\ open[h].w = 0
      /\ ~(b < Len(f) /\ f[b + 1][1] = "n")
      /\ IF a = Len(f) THEN ret = 0 /\ open' = [open EXCEPT ![h].pos = a] /\ UNCHANGED polys
         ELSE /\ ret = Len(s)
              /\ polys' = [polys EXCEPT ![r] = s]
              /\ open' = [open EXCEPT ![h].pos = IF b < Len(f) THEN b + 1 ELSE b]
      /\ UNCHANGED files
\* the points before a line with NaN are added, then the reading is refused
PReadNaN(r, h) ==
  LET f == files[open[h].name]
      a == SkipTo(f, open[h].pos)
      b == PointsTo(f, a)
  IN  /\ open[h].w = 0
      /\ b < Len(f) /\ f[b + 1][1] = "n"
      /\ polys' = [polys EXCEPT ![r] = @ \o [k \in 1..(b - a) |-> <<f[a + k][2], f[a + k][3]>>]]
      /\ open' = [open EXCEPT ![h].pos = b + 1]
      /\ UNCHANGED files
FContent(name, ls) == ls = files[name] /\ PKeep
=============================================================================
