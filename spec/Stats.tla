-------------------------------- MODULE Stats --------------------------------
(* Quality figures of a corner grid: deviation from orthogonality at the      *)
(* corners of the valid cells, aspect ratio and size of the cells.            *)
EXTENDS GridMap, Fixed

\* deviation from a right angle, in 10^-5 degrees, between the sides a->b and
\* a->c: its tangent is |dot| / |cross|
Deviation(a, b, c) ==
  LET ux == PX(b) - PX(a)
      uy == PY(b) - PY(a)
      vx == PX(c) - PX(a)
      vy == PY(c) - PY(a)
  IN  Angle(Abs(ux * vy - uy * vx), Abs(ux * vx + uy * vy))

CornersOf(g, c) == <<Node(g, c[1], c[2]), Node(g, c[1] + 1, c[2]), Node(g, c[1] + 1, c[2] + 1), Node(g, c[1], c[2] + 1)>>

Sq(a) == a * a
Max2(a, b) == IF a > b THEN a ELSE b

(* [d |-> the four deviations, a |-> aspect ratio in 2^-14, sx, sy |-> sum of  *)
(* the lengths of the sides along i and along j in 2^-8]                      *)
CellFigures(q) ==
  LET mx == Sq(PX(q[1]) + PX(q[2]) - PX(q[3]) - PX(q[4])) + Sq(PY(q[1]) + PY(q[2]) - PY(q[3]) - PY(q[4]))
      my == Sq(PX(q[1]) + PX(q[4]) - PX(q[2]) - PX(q[3])) + Sq(PY(q[1]) + PY(q[4]) - PY(q[2]) - PY(q[3]))
  IN  [d |-> <<Deviation(q[1], q[2], q[4]), Deviation(q[2], q[3], q[1]), Deviation(q[3], q[4], q[2]), Deviation(q[4], q[1], q[3])>>,
       a |-> IF mx >= my THEN SqrtRatio(mx, my) ELSE SqrtRatio(my, mx),
       sx |-> SqrtIn(SqDist(q[1], q[2]), 8) + SqrtIn(SqDist(q[3], q[4]), 8),
       sy |-> SqrtIn(SqDist(q[2], q[3]), 8) + SqrtIn(SqDist(q[4], q[1]), 8)]

RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN f[c] + SumF(f, S \ {c})
MaxF(f, S) == CHOOSE m \in {f[c] : c \in S} : \A c \in S : f[c] <= m

Within(u, v, d) == u - v <= d /\ v - u <= d

(* s: the figures reported, [mdo, i, j, ado, mar, k, l, aar: in thousandths,  *)
(* adx, ady, and half of their last digit, hx, hy: in thousandths of a       *)
(* coordinate unit].  Allowed: half of the last digit, and the error of      *)
(* Fixed.                                                                     *)
FiguresMatch(g, s) ==
  \E C \in {CellsCO(g)} :
  \E f \in {TLCEval([c \in C |-> CellFigures(CornersOf(g, c))])} :
    LET n == Cardinality(C)
        md == [c \in C |-> Max2(Max2(f[c].d[1], f[c].d[2]), Max2(f[c].d[3], f[c].d[4]))]
        sd == [c \in C |-> (f[c].d[1] + f[c].d[2]) + (f[c].d[3] + f[c].d[4])]
        ar == [c \in C |-> f[c].a]
        mdo == MaxF(md, C)
        mar == MaxF(ar, C)
        SizeMatch(v, u, t) == Within(v, ((t \div n) * 125) \div 64, u + 2 + v \div 10000)
    IN  C # {} =>
        /\ Within(s.mdo * 100, mdo, 65)
        /\ mdo > 100 => <<s.i, s.j>> \in C /\ md[<<s.i, s.j>>] >= mdo - 20
        /\ Within(s.ado * 100, SumF(sd, C) \div (4 * n), 65)
        /\ Within(s.mar * 16384, mar * 1000, 8192 + 4096)
        /\ mar > 16384 + 16 => <<s.k, s.l>> \in C /\ ar[<<s.k, s.l>>] >= mar - 8
        /\ Within(s.aar * 16384, (SumF(ar, C) \div n) * 1000, 8192 + 4096)
        /\ SizeMatch(s.adx, s.hx, SumF([c \in C |-> f[c].sx], C))
        /\ SizeMatch(s.ady, s.hy, SumF([c \in C |-> f[c].sy], C))

\* figures are printed for corner and double density grids, of the corner grid
FiguresOf(o, s) ==
  IF o.t = "CO" THEN FiguresMatch(o, s) ELSE FiguresMatch(DDtoCO(ValidateDD(o)), s)
=============================================================================
