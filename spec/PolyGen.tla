-------------------------------- MODULE PolyGen --------------------------------
(* Behaviours of Poly to be run in the code.  Every transition of its state   *)
(* graph within the bounds is printed once, behind a shortest history that    *)
(* leads to it; the states told apart include how each polyline came about    *)
(* and the last call, as objects that should be independent may not be.       *)
EXTENDS Poly, Json

CONSTANTS Coord,    \* coordinates of points
          MaxLen,   \* points in a polyline
          MaxOps    \* calls in a history

VARIABLES hist,     \* calls so far
          prov      \* register -> call that gave it its points

Pts == Coord \X Coord
Regs == {0, 1}

GInit == PolyInit /\ hist = <<>> /\ prov = [r \in Regs |-> "-"]

Does(r, c) == hist' = Append(hist, c) /\ prov' = [prov EXCEPT ![r] = c[1]]
Keeps(c) == hist' = Append(hist, c) /\ UNCHANGED prov

Live == DOMAIN polys

GNext ==
  /\ Len(hist) < MaxOps
  /\ \/ \E r \in Regs : r \notin Live /\ PNew(r, <<>>) /\ Does(r, <<"new", r>>)
     \/ \E r \in Live, p \in Pts : PAdd(r, p) /\ Keeps(<<"add", r, p>>)
     \/ \E r \in Live, k \in -1..(MaxLen + 1), p \in Pts : k <= Len(polys[r]) + 1 /\ PAddAt(r, k, p) /\ Keeps(<<"addat", r, k, p>>)
     \/ \E r, s \in Live : r # s /\ PAppend(r, s) /\ Does(r, <<"append", r, s>>)
     \/ \E r \in Live, k \in 0..(MaxLen - 1) : k < Len(polys[r]) /\ PDelete(r, k) /\ Keeps(<<"delete", r, k>>)
     \/ \E r \in Live : PReverse(r) /\ Keeps(<<"reverse", r>>)
     \/ \E r \in Live : PClose(r) /\ Keeps(<<"close", r>>)
     \/ \E r \in Live : PClear(r) /\ Keeps(<<"clear", r>>)
     \/ \E r \in Regs, s \in Live : r # s /\ PCopy(r, s) /\ Does(r, <<"copy", r, s>>)
     \/ \E r \in Live : PFree(r) /\ Does(r, <<"free", r>>)
     \/ \E r \in Live, e \in {0, 1} : PThin(r, e) /\ Keeps(<<"thin", r, e>>)
     \/ \E r \in Live, d \in {1, 2} : PDespike(r, d) /\ Keeps(<<"despike", r, d>>)
  /\ \A r \in DOMAIN polys' : Len(polys'[r]) <= MaxLen

View == <<polys, prov, IF hist = <<>> THEN "-" ELSE hist[Len(hist)][1]>>

Emit == PrintT(ToJson(hist'))

=============================================================================
