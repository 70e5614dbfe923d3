-------------------------------- MODULE Bathy --------------------------------
(* Values of scattered data on the cells of a grid: what gridbathy prints.    *)
(*                                                                           *)
(* The interpolation libraries are replaced by stand-ins (harness/stubs),     *)
(* which give for data <<x, y, z>> and method m at point p                    *)
(*   V(p) = S + 100 m + A[m] p.x + B[m] p.y,  S = sum of (z + x + 2 y)        *)
(* and NaN where p.x + 3 p.y exceeds a limit.  V tells apart methods, points, *)
(* data sets and coordinate systems.                                          *)
EXTENDS GridMap

SlopeX == <<1, 2, -1, 3>>      \* methods 0, 1, 2, 3
SlopeY == <<1, -1, 2, 1>>

RECURSIVE SumData(_, _)
SumData(d, k) == IF k > Len(d) THEN 0 ELSE d[k][3] + d[k][1] + 2 * d[k][2] + SumData(d, k + 1)

\* coordinates of sample k of n * n in cell c, in units of 1 / SampleUnit
SampleUnit(e) == IF e.x = 1 THEN 8 * e.n ELSE 4 * e.n * e.n
Sample(g, e, c, k) ==
  LET p == 2 * (k \div e.n) + 1
      q == 2 * (k % e.n) + 1
      m == 2 * e.n
      C == Corners(g, c[1], c[2])
      s(d) == (m - p) * (m - q) * C[1][d] + p * (m - q) * C[2][d] + p * q * C[3][d] + (m - p) * q * C[4][d]
  IN  IF e.x = 1 THEN <<8 * e.n * c[1] + 4 * p, 8 * e.n * c[2] + 4 * q>> ELSE <<s(2), s(3)>>

Clip(v, e, u) == IF e.r = 0 THEN v ELSE IF v < e.lo * u THEN e.lo * u ELSE IF v > e.hi * u THEN e.hi * u ELSE v

RECURSIVE SumSamples(_, _, _, _, _)
\* <<sum, number>> of the samples from k on; s: the sum over the data in units
\* of 1 / SampleUnit
SumSamples(g, e, c, s, k) ==
  IF k = e.n * e.n THEN <<0, 0>>
  ELSE LET rest == SumSamples(g, e, c, s, k + 1)
           p == Sample(g, e, c, k)
           u == SampleUnit(e)
           v == s + 100 * e.a * u + SlopeX[e.a + 1] * p[1] + SlopeY[e.a + 1] * p[2]
       IN  IF e.lim # <<>> /\ p[1] + 3 * p[2] > e.lim[1] THEN rest
           ELSE <<rest[1] + Clip(v, e, u), rest[2] + 1>>

\* v, in hundredths, is sum / d, rounded to that (either way at a tie)
IsRounded(v, sum, d) == LET w == v - 100 * (sum \div d) IN
                        /\ w >= -1 /\ w <= 101
                        /\ 2 * Abs(w * d - 100 * (sum % d)) <= d + 2 + d \div 500

\* data in index space: points <<x, y, z>> with hints <<1, I, J>> (image of
\* (I/8, J/8)) or <<0>> (outside); the hints must be right
HintsRight(g, d, h) == /\ Len(h) = Len(d)
                       /\ \A k \in 1..Len(d) : IF h[k][1] = 1 THEN LET i == Image(g, h[k][2], h[k][3]) IN i = <<1, d[k][1], d[k][2]>>
                                               ELSE CellsAt(g, <<d[k][1], d[k][2]>>) = {}
RECURSIVE SumIndex(_, _, _)
\* in eighths
SumIndex(d, h, k) == IF k > Len(d) THEN 0
                     ELSE (IF h[k][1] = 1 THEN 8 * d[k][3] + h[k][2] + 2 * h[k][3] ELSE 0) + SumIndex(d, h, k + 1)

RECURSIVE SumIn(_, _, _)
\* <<sum, number>> of the data inside the quadrilateral
SumIn(d, q, k) == IF k > Len(d) THEN <<0, 0>>
                  ELSE LET rest == SumIn(d, q, k + 1) IN
                       IF InsideQuad(q, <<d[k][1], d[k][2]>>) THEN <<rest[1] + d[k][3], rest[2] + 1>> ELSE rest

\* o: <<0>> (NaN) or <<1, hundredths>>, printed for cell c; mask: 0/1 per cell or <<>>
CellValue(g, e, d, s, mask, c, o) ==
  IF ~CellCO(g, c[1], c[2]) \/ (mask # <<>> /\ mask[c[2] * (g.nx - 1) + c[1] + 1] = 0) THEN o = <<0>>
  ELSE IF e.a = 4
       THEN \E t \in {SumIn(d, Corners(g, c[1], c[2]), 1)} :
              IF t[2] = 0 THEN o = <<0>>
              ELSE o[1] = 1 /\ IsRounded(o[2], Clip(t[1], e, t[2]), t[2])
       ELSE \E t \in {SumSamples(g, e, c, s, 0)} :
              IF t[2] = 0 THEN o = <<0>>
              ELSE o[1] = 1 /\ IsRounded(o[2], t[1], t[2] * SampleUnit(e))

\* the cells asked for, in order
CellsAsked(g, e) == IF e.c # <<>> THEN <<e.c>>
                    ELSE [k \in 1..((g.nx - 1) * (g.ny - 1)) |-> <<(k - 1) % (g.nx - 1), (k - 1) \div (g.nx - 1)>>]
InsideGrid(g, c) == c[1] >= 0 /\ c[2] >= 0 /\ c[1] < g.nx - 1 /\ c[2] < g.ny - 1

Values(g, e, d, mask) ==
  /\ e.x = 1 /\ e.a # 4 => HintsRight(g, d, e.hints)
  /\ \E s \in {IF e.a = 4 THEN 0 ELSE IF e.x = 1 THEN e.n * SumIndex(d, e.hints, 1) ELSE 4 * e.n * e.n * SumData(d, 1)},
        cs \in {CellsAsked(g, e)} :
       /\ Len(e.out) = Len(cs)
       /\ \A k \in 1..Len(cs) : CellValue(g, e, d, s, mask, cs[k], e.out[k])
=============================================================================
