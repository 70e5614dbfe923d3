--------------------------------- MODULE MapGen ---------------------------------
(* Behaviours of GridMap to be run in the code: over every connected set of   *)
(* valid cells of a small grid of parallelograms and its mirror image, maps   *)
(* of both types are built and freed, averagers made, filled and freed, and   *)
(* questions asked in between.  Every transition is printed once, behind a    *)
(* shortest history that leads to it; told apart are the objects and the last *)
(* Depth calls, so that questions that should not influence each other follow *)
(* on each other in all ways.                                                 *)
EXTENDS GridMap, Json

CONSTANTS CX, CY,     \* cells
          Kinds,      \* kinds of questions asked
          MaxMaps, MaxAvs, MaxOps, Depth

VARIABLE hist

At(I, J) == <<8 * (2 * I + J), 8 * (3 * J - I)>>       \* of fractional indices in eighths
Corner(i, j) == <<1, At(8 * i, 8 * j)[1], At(8 * i, 8 * j)[2]>>

Cells == (0..(CX - 1)) \X (0..(CY - 1))
RECURSIVE Grow(_, _)
Grow(S, all) == LET n == S \cup {c \in all : \E d \in S : (c[1] - d[1]) * (c[1] - d[1]) + (c[2] - d[2]) * (c[2] - d[2]) = 1}
                IN  IF n = S THEN S ELSE Grow(n, all)
Connected(c) == c # {} /\ Grow({CHOOSE d \in c : TRUE}, c) = c

GridOn(c) == GridOf("CO", CX + 1, CY + 1, 0, LAMBDA i, j :
                IF \E d \in c : d[1] \in {i - 1, i} /\ d[2] \in {j - 1, j} THEN Corner(i, j) ELSE Empty)

\* indices asked about: middles of cells, sides, corners, outside
Asked == {<<8 * c[1] + 4, 8 * c[2] + 3>> : c \in Cells} \cup {<<8, 5>>, <<3, 8>>, <<8, 8>>, <<0, 0>>, <<8 * CX + 2, 4>>, <<5, -1>>}
Added == {<<8 * c[1] + 4, 8 * c[2] + 3>> : c \in Cells} \cup {<<8 * CX + 2, 4>>}

Flip(r, p) == <<gr[r].mx * p[1], gr[r].my * p[2]>>
Ask(m, q) == LET p == Flip(maps[m].r, At(q[1], q[2])) IN <<p[1], p[2], q[1], q[2]>>

GInit == /\ MapInit /\ hist = <<>>

Does(c) == hist' = Append(hist, c)
Same == UNCHANGED mvars

Dead(S, f) == S \ DOMAIN f

GNext ==
  \/ /\ hist = <<>>
     /\ \E c \in SUBSET Cells : Connected(c) /\ NewGrid(0, GridOn(c), 0, 1, 1)
           /\ Does(<<"grid", [k \in 1..(CX * CY) |-> IF <<(k - 1) % CX, (k - 1) \div CX>> \in c THEN 1 ELSE 0]>>)
  \/ /\ hist # <<>> /\ Len(hist) < MaxOps
     /\ \/ 1 \notin DOMAIN gr /\ NewMirror(1, 0, Mirrored(gr[0].g, -1, 1), -1, 1) /\ Does(<<"mirror", -1, 1>>)
        \/ \E m \in Dead(0..(MaxMaps - 1), maps), r \in DOMAIN gr, t \in {0, 1} :
              (m = 0 \/ m - 1 \in DOMAIN maps) /\ BuildMap(m, r, t) /\ Does(<<"build", m, r, t>>)
        \/ \E m \in DOMAIN maps : (\A a \in DOMAIN avs : avs[a].m # m) /\ FreeMap(m) /\ Does(<<"mfree", m>>)
        \/ \E k \in Kinds \cap {"ij", "fij"} : \E m \in DOMAIN maps, q \in Asked : Same /\ Does(<<k, m, Ask(m, q)>>)
        \/ "xy" \in Kinds /\ \E m \in DOMAIN maps, q \in Asked : Same /\ Does(<<"xy", m, Ask(m, q)>>)
        \/ \E a \in Dead(0..(MaxAvs - 1), avs), m \in DOMAIN maps : NewAverager(a, m) /\ Does(<<"anew", a, m>>)
        \/ \E a \in DOMAIN avs, q \in Added :
              LET p == Ask(avs[a].m, q)
                  z == 3 + 7 * Len(avs[a].pts)
              IN  Len(avs[a].pts) < 3 /\ AddPoints(a, <<<<p[1], p[2], z, 1>>>>) /\ Does(<<"aadd", a, p, z>>)
        \/ \E a \in DOMAIN avs, q \in Added : Same /\ Does(<<"aget", a, Ask(avs[a].m, q)>>)
        \/ \E a \in DOMAIN avs : FreeAverager(a) /\ Does(<<"afree", a>>)

Last(k) == IF Len(hist) < k THEN hist ELSE SubSeq(hist, Len(hist) - k + 1, Len(hist))
View == <<gr, maps, avs, Last(Depth)>>

Emit == PrintT(ToJson(hist'))
=============================================================================
