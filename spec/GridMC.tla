-------------------------------- MODULE GridMC --------------------------------
(* All presence patterns of a small grid, all masks, validation, conversions, *)
(* windows: the laws that the operations of Grid obey among each other.       *)
EXTENDS Grid

CONSTANTS T, NX, NY   \* node type and size of the initial grid

VARIABLES g,      \* the grid
          ph,     \* "raw", "valid", "conv" (a result of a conversion), "masked"
          from    \* the grid the last step started from

\* coordinates bilinear in the indices, multiples of 16 so that all means exist
XY(t, i, j) ==
  LET s == CASE t = "DD" -> 1 [] OTHER -> 2      \* half cells per index
      o == IF t = "CE" THEN 1 ELSE 0
      a == s * i + o
      b == s * j + o
  IN  <<1, 16 * (3 * a - 2 * b + a * b + 5), 16 * (a + 4 * b - 2 * a * b)>>

All(t, nx, ny, p) == GridOf(t, nx, ny, 0, LAMBDA i, j : IF p[j * nx + i + 1] THEN XY(t, i, j) ELSE Empty)

Init == /\ g \in {All(T, NX, NY, p) : p \in [1..(NX * NY) -> BOOLEAN]}
        /\ ph = "raw" /\ from = g

Check == ph = "raw" /\ g' = Validate(g) /\ ph' = "valid" /\ from' = g

\* validation happens before any conversion
Conv == /\ ph \in {"valid", "masked"}
        /\ \E t \in {"CO", "DD", "CE"} :
             /\ t # g.t
             /\ ~(g.t = "CO" /\ (g.nx = 1 \/ g.ny = 1))
             /\ g' = Transform(Validate(g), t)
        /\ ph' = "conv" /\ from' = Validate(g)

Masked == /\ ph = "valid" /\ g.t \in {"DD", "CE"}
          /\ \E mk \in [1..(NCE1(g) * NCE2(g)) -> {0, 1}] : g' = ApplyMask(g, mk)
          /\ ph' = "masked" /\ from' = g

Cut == /\ ph = "valid" /\ g.nx > 1
       /\ g' = Window(g, 1, 99, -5, g.ny - 1) /\ ph' = "cut" /\ from' = g

Next == Check \/ Conv \/ Masked \/ Cut

-----------------------------------------------------------------------------
SameSize == g.nx = from.nx /\ g.ny = from.ny /\ g.t = from.t

\* validation and masks only remove nodes, never change or add one
OnlyRemoves == ph \in {"valid", "masked"} =>
   SameSize /\ \A k \in 1..Len(g.n) : g.n[k] \in {Empty, from.n[k]}

Idempotent == ph \in {"valid", "masked"} => Validate(g) = g

\* no cell of a corner grid is lost by validation, and every node left is needed
ValidCO == (ph = "valid" /\ g.t = "CO") =>
   /\ CellsCO(g) = CellsCO(from)
   /\ \A i \in 0..(g.nx - 1), j \in 0..(g.ny - 1) :
        Ok(g, i, j) <=> \E c \in CellsCO(from) : c[1] \in {i - 1, i} /\ c[2] \in {j - 1, j}

ValidDD == (ph = "valid" /\ g.t = "DD") =>
   /\ CellsDD(g) = {c \in CellsDD(from) : CellDD(from, c[1], c[2])}
   /\ \A i \in 0..(g.nx - 1), j \in 0..(g.ny - 1) :
        (Ok(g, i, j) /\ (i + j) % 2 = 1) =>
           \A d \in {-1, 1} : IF i % 2 = 1 THEN Ok(g, i + d, j) ELSE Ok(g, i, j + d)

\* all conversions keep bilinear coordinates where they are
Bilinear == \A k \in 1..Len(g.n) :
   ph # "cut" /\ g.n[k][1] = 1 => g.n[k] = XY(g.t, (k - 1) % g.nx, (k - 1) \div g.nx)

\* the cells survive a conversion from corners
ConvCells == (ph = "conv" /\ from.t = "CO") =>
   (IF g.t = "CE" THEN {c \in (0..(g.nx - 1)) \X (0..(g.ny - 1)) : Ok(g, c[1], c[2])} ELSE CellsDD(g)) = CellsCO(from)

RoundTrip == (ph = "conv" /\ from.t = "CO" /\ g.t = "DD") =>
   /\ Validate(g) = g
   /\ DDtoCO(g) = from
   /\ DDtoCE(g) = COtoCE(from)

\* rebuilt corners: enough for every cell of the block they come from, and no
\* centre that was not there
Rebuilt == (ph = "conv" /\ from.t = "CE") =>
   /\ IsRebuilt(from, g.t, g)
   /\ Validate(g) = g
   /\ \A a \in 0..(from.nx - 1), b \in 0..(from.ny - 1) :
        /\ (g.t = "DD" /\ Ok(g, 2*a + 1, 2*b + 1)) => Node(g, 2*a + 1, 2*b + 1) = Node(from, a, b)
        /\ (\E c \in {a - 1, a}, d \in {b - 1, b} : CellCO(from, c, d)) =>
             (IF g.t = "CO" THEN CellCO(g, a, b) ELSE Ok(g, 2*a + 1, 2*b + 1))

\* a centre is valid after masking exactly if it was valid and not masked, and
\* a corner left has an unmasked neighbour cell
MaskLaw == (ph = "masked" /\ g.t = "DD") =>
   /\ CellsDD(g) \subseteq CellsDD(from)
   /\ \A c \in CellsDD(from) \ CellsDD(g) : Node(g, 2*c[1] + 1, 2*c[2] + 1) = Empty
   /\ \A i \in 0..(NCE1(g)), j \in 0..(NCE2(g)) :
        Ok(g, 2*i, 2*j) => \E a \in {i - 1, i}, b \in {j - 1, j} : Ok(g, 2*a + 1, 2*b + 1)

CutLaw == (ph = "cut") =>
   /\ g.nx = from.nx - 1 /\ g.ny = from.ny
   /\ \A i \in 0..(g.nx - 1), j \in 0..(g.ny - 1) : Node(g, i, j) = Node(from, i + 1, j)
   /\ Window(g, 0, 0, 0, 0) = Window(from, 1, 1, 0, 0)
   /\ Insert(from, g, 1, 0, FALSE, g.t).n = from.n
   /\ Insert(g, from, -1, 0, TRUE, g.t).n = from.n
=============================================================================
