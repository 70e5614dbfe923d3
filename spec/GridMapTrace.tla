----------------------------- MODULE GridMapTrace -----------------------------
(* Histories of maps, recorded from the code.                                 *)
EXTENDS GridMap, TraceIO

Good == Ev.q = 0

\* the nodes of all live grids after the call are those of the specification
Match == /\ Len(Ev.st) = Cardinality(DOMAIN gr')
         /\ \A k \in 1..Len(Ev.st) :
               /\ Ev.st[k][1] \in DOMAIN gr'
               /\ Ev.st[k][2] = gr'[Ev.st[k][1]].g.n

AGrid == [t |-> "CO", nx |-> Ev.nx, ny |-> Ev.ny, m |-> 0, n |-> Ev.n]

TNew == IsEvent("new") /\ Good /\ NewGrid(Ev.r, AGrid, Ev.r, 1, 1) /\ Match
TMirror == IsEvent("mirror") /\ Good /\ NewMirror(Ev.r, Ev.s, AGrid, Ev.mx, Ev.my) /\ Match
TBuild == /\ IsEvent("build") /\ Good /\ BuildMap(Ev.m, Ev.r, Ev.t)
          /\ Ev.c1 = gr[Ev.r].g.nx - 1 /\ Ev.c2 = gr[Ev.r].g.ny - 1
          /\ Match
TFree == IsEvent("mfree") /\ Good /\ FreeMap(Ev.m) /\ Match
TCheck == IsEvent("check") /\ Good /\ UNCHANGED mvars /\ Match

TLocate == IsEvent("ij") /\ Good /\ Locate(Ev.m, Ev.p, Ev.ret, Ev.i, Ev.j)
TFractional == /\ IsEvent("fij") /\ Good
               /\ Ev.ret = 0 => Ev.nan = 1
               /\ Fractional(Ev.m, Ev.p, Ev.ret, Ev.fi, Ev.fj, Ev.back, Ev.ex, Ev.ey, Ev.span, Ev.hint)
TNowhere == /\ IsEvent("nowhere") /\ Good /\ Nowhere(Ev.ret)
TPhysical == IsEvent("xy") /\ Good /\ Physical(Ev.m, Ev.fi, Ev.fj, Ev.ret, Ev.nd)
TPhysicalOut == IsEvent("xyout") /\ Good /\ PhysicalOut(Ev.m, Ev.fi, Ev.fj, Ev.ret, Ev.nd)
TPhysicalNaN == IsEvent("xynan") /\ Good /\ PhysicalNaN(Ev.ret, Ev.nd)
TBoundary == /\ IsEvent("boundij") /\ Good
             /\ Boundary(Ev.r, Ev.w, Ev.nodes)

TANew == IsEvent("anew") /\ Good /\ NewAverager(Ev.a, Ev.m)
TAAdd == IsEvent("aadd") /\ Good /\ Ev.same = 1 /\ AddPoints(Ev.a, Ev.pts)
TAGet == IsEvent("aget") /\ Good /\ Ev.same = 1 /\ Average(Ev.a, Ev.p, Ev.v)
TAFree == IsEvent("afree") /\ Good /\ FreeAverager(Ev.a)

TEnd == AtEnd /\ UNCHANGED mvars

TInit == MapInit /\ TraceStart
TNext == \/ TNew \/ TMirror \/ TBuild \/ TFree \/ TCheck \/ TLocate \/ TFractional \/ TNowhere
         \/ TPhysical \/ TPhysicalOut \/ TPhysicalNaN \/ TBoundary
         \/ TANew \/ TAAdd \/ TAGet \/ TAFree \/ TEnd
=============================================================================
