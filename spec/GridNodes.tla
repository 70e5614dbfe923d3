------------------------------ MODULE GridNodes ------------------------------
(* State machine of grid objects: a set of registers holding grids, and one   *)
(* action per call of the library.  Objects share nothing: every action says  *)
(* what happens to each register.                                             *)
EXTENDS Grid

CONSTANT Reg

VARIABLES grids,   \* register -> grid or None
          nextp    \* register -> index of the next node filled point by point

None == [t |-> "-", nx |-> 0, ny |-> 0, m |-> 0, n |-> <<>>]

Live == {r \in Reg : grids[r].t # "-"}

NodesInit == /\ grids = [r \in Reg |-> None]
             /\ nextp = [r \in Reg |-> 0]

Set(r, g) == /\ grids' = [grids EXCEPT ![r] = g]
             /\ nextp' = [nextp EXCEPT ![r] = 0]

\* a new grid with the given nodes
New(r, g) == g.m = 0 /\ Set(r, g)

\* fill the next node, row by row, starting again after the last one
Point(r, nd) ==
  /\ r \in Live
  /\ grids' = [grids EXCEPT ![r].n[nextp[r] + 1] = nd]
  /\ nextp' = [nextp EXCEPT ![r] = (nextp[r] + 1) % Len(grids[r].n)]

SetMapType(r, m) == grids' = [grids EXCEPT ![r].m = m] /\ UNCHANGED nextp

ValidateGrid(r) == /\ r \in Live
                   /\ grids' = [grids EXCEPT ![r] = Validate(grids[r])]
                   /\ UNCHANGED nextp

Copy(d, s) == s \in Live /\ Set(d, grids[s])

\* conversion validates its source; o is the result
Convert(d, s, t, o) ==
  /\ s \in Live /\ s # d
  /\ \E v \in {Validate(grids[s])} :
       /\ IsTransformed(v, t, o) = TRUE   \* (a plain condition, not a choice of next states)
       /\ grids' = [grids EXCEPT ![s] = v, ![d] = o]
  /\ nextp' = [nextp EXCEPT ![d] = 0]

SubGrid(d, s, i1, i2, j1, j2) ==
  /\ s \in Live /\ ~WindowEmpty(grids[s], i1, i2, j1, j2)
  /\ Set(d, Window(grids[s], i1, i2, j1, j2))

Mask(r, mk) == /\ r \in Live /\ grids[r].t \in {"DD", "CE"}
               /\ grids' = [grids EXCEPT ![r] = ApplyMask(grids[r], mk)]
               /\ UNCHANGED nextp

\* statistics validate the grid and leave it otherwise alone
Stats(r) == IF grids[r].t \in {"DD", "CO"} THEN ValidateGrid(r) ELSE UNCHANGED <<grids, nextp>>

Destroy(r) == r \in Live /\ Set(r, None)

Keep == UNCHANGED <<grids, nextp>>
=============================================================================
