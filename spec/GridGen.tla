-------------------------------- MODULE GridGen --------------------------------
(* Behaviours of GridNodes to be run in the code.  Every transition of its    *)
(* state graph from every presence pattern of a small grid is printed once,   *)
(* behind a shortest history that leads to it; the states told apart include  *)
(* the calls that made the objects, the last call, and whether an object was  *)
(* changed after it was made.                                                 *)
EXTENDS GridNodes, Json

CONSTANTS T, NX, NY,   \* node type and size of the first grid
          MaxOps

VARIABLES hist,
          prov         \* register -> <<call it was made by, last call that changed it>>

\* strictly convex cells, whole numbers for all means and extrapolations
XY(t, i, j) ==
  LET s == CASE t = "DD" -> 1 [] OTHER -> 2
      o == IF t = "CE" THEN 1 ELSE 0
      a == s * i + o
      b == s * j + o
  IN  <<1, 64 * (3 * a - b + 5), 64 * (a + 4 * b + a * b)>>

All(t, nx, ny, p) == GridOf(t, nx, ny, 0, LAMBDA i, j : IF p[j * nx + i + 1] THEN XY(t, i, j) ELSE Empty)

GInit == NodesInit /\ hist = <<>> /\ prov = [r \in Reg |-> <<"-", "-">>]

Made(r, c) == hist' = Append(hist, c) /\ prov' = [prov EXCEPT ![r] = <<c[1], "-">>]
Changed(r, c) == hist' = Append(hist, c) /\ prov' = [prov EXCEPT ![r][2] = c[1]]

Dead == Reg \ Live

\* cells of the default mapping must be connected (small grids have no holes)
RECURSIVE Grow(_, _)
Grow(S, all) == LET n == S \cup {c \in all : \E d \in S : (c[1] - d[1]) * (c[1] - d[1]) + (c[2] - d[2]) * (c[2] - d[2]) = 1}
                IN  IF n = S THEN S ELSE Grow(n, all)
Connected(g) == LET c == CellsCO(g) IN c # {} /\ Grow({CHOOSE d \in c : TRUE}, c) = c

MayConvert(g, t) == /\ CanTransform(g, t) /\ t # "NO"
                    /\ (g.t = "CO" /\ t # "CO") => (g.m = 1 \/ Connected(g))
                    /\ (g.t = "CO" /\ t # "CO") => (g.nx > 1 /\ g.ny > 1)
                    /\ (g.t = "DD") => (g.nx % 2 = 1 /\ g.ny % 2 = 1)
                    /\ g.nx * g.ny <= 30

Windows(g) == {<<0, g.nx - 1, 0, g.ny - 1>>, <<1, g.nx, -1, g.ny - 1>>, <<-2, g.nx - 2, 1, g.ny + 3>>, <<g.nx, g.nx, 0, 0>>}
Whole(g, w) == LET h == Window(g, w[1], w[2], w[3], w[4])
               IN  CASE g.t = "DD" -> h.nx % 2 = 1 /\ h.ny % 2 = 1 [] OTHER -> TRUE

Masks(g) == IF Len(g.n) > 9 \/ NCE1(g) * NCE2(g) > 4 THEN {[k \in 1..(NCE1(g) * NCE2(g)) |-> k % 2]}
            ELSE [1..(NCE1(g) * NCE2(g)) -> {0, 1}]

GNext ==
  /\ Len(hist) < MaxOps
  /\ \/ \E p \in [1..(NX * NY) -> BOOLEAN] :
           hist = <<>> /\ \E g \in {All(T, NX, NY, p)} : New(0, g) /\ Made(0, <<"new", 0, g.t, g.nx, g.ny, g.n>>)
     \/ \E r \in Live : ValidateGrid(r) /\ Changed(r, <<"valid", r>>)
     \/ \E r \in Live : grids[r].m = 0 /\ SetMapType(r, 1) /\ Changed(r, <<"setmap", r, 1>>)
     \/ \E r \in Live : grids[r].t \in {"DD", "CO"} /\ Stats(r) /\ Changed(r, <<"stats", r>>)
     \/ \E r \in Live : Destroy(r) /\ Made(r, <<"free", r>>)
     \/ \E d \in Dead, s \in Live : Copy(d, s) /\ Made(d, <<"copy", d, s>>)
     \/ \E d \in Dead, s \in Live, t \in {"CO", "CE", "DD"} :
           /\ MayConvert(grids[s], t)
           /\ \E v \in {Validate(grids[s])} : Convert(d, s, t, Transform(v, t))
           /\ Made(d, <<"trans", d, s, t>>)
     \/ \E d \in Dead, s \in Live : \E w \in Windows(grids[s]) :
           IF WindowEmpty(grids[s], w[1], w[2], w[3], w[4])
           THEN Keep /\ hist' = Append(hist, <<"sub", d, s, w[1], w[2], w[3], w[4]>>) /\ UNCHANGED prov
           ELSE Whole(grids[s], w) /\ SubGrid(d, s, w[1], w[2], w[3], w[4]) /\ Made(d, <<"sub", d, s, w[1], w[2], w[3], w[4]>>)
     \/ \E r \in Live : grids[r].t \in {"DD", "CE"} /\ \E mk \in Masks(grids[r]) :
           Mask(r, mk) /\ Changed(r, <<"mask", r, NCE1(grids[r]), NCE2(grids[r]), mk>>)

View == <<grids, prov, IF hist = <<>> THEN "-" ELSE hist[Len(hist)][1]>>

Emit == PrintT(ToJson(hist'))
=============================================================================
