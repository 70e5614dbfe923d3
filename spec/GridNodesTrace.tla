---------------------------- MODULE GridNodesTrace ----------------------------
(* Histories of calls on grid objects, recorded with the complete state of    *)
(* all live objects after every call.                                         *)
EXTENDS GridNodes, TraceIO

tvars == <<grids, nextp, tid, l>>

ObsGrid(o, t) == [t |-> t, nx |-> o.nx, ny |-> o.ny, m |-> o.m, n |-> o.n]

SameObs(o, g) == /\ o.nx = g.nx /\ o.ny = g.ny /\ o.m = g.m
                 /\ o.n = g.n
                 /\ o.c1 = NCE1(g) /\ o.c2 = NCE2(g)

\* the objects observed after the call are those of the new state
Match == /\ Len(Ev.st) = Cardinality({r \in Reg : grids'[r].t # "-"})
         /\ \A k \in 1..Len(Ev.st) : /\ grids'[Ev.st[k][1]].t # "-"
                                     /\ SameObs(Ev.st[k][2], grids'[Ev.st[k][1]])

\* the object observed in register r
Obs(r) == LET k == CHOOSE k \in 1..Len(Ev.st) : Ev.st[k][1] = r IN Ev.st[k][2]
HasObs(r) == \E k \in 1..Len(Ev.st) : Ev.st[k][1] = r

Good == Ev.q = 0
Refused == Ev.q = 1

TNew == /\ IsEvent("new") /\ Good
        /\ New(Ev.r, [t |-> Ev.t, nx |-> Ev.nx, ny |-> Ev.ny, m |-> 0, n |-> Ev.n])
        /\ Match

\* nodes of a grid created without points are arbitrary until filled
TEmpty == /\ IsEvent("empty") /\ Good /\ HasObs(Ev.r)
          /\ LET o == ObsGrid(Obs(Ev.r), Ev.t)
             IN  o.nx = Ev.nx /\ o.ny = Ev.ny /\ Len(o.n) = Ev.nx * Ev.ny /\ New(Ev.r, o)
          /\ Match

TPoint == IsEvent("point") /\ Good /\ Point(Ev.r, Ev.nd) /\ Match

TValid == /\ IsEvent("valid") /\ Good /\ ValidateGrid(Ev.r) /\ Match
          /\ grids[Ev.r].t \in {"DD", "CO"} => Ev.cells = NumCells(grids'[Ev.r])

TStats == IsEvent("stats") /\ Good /\ Stats(Ev.r) /\ Match

TCopy == IsEvent("copy") /\ Good /\ Copy(Ev.r, Ev.s) /\ Match

TConvert == /\ IsEvent("trans") /\ Good /\ HasObs(Ev.r)
            /\ LET t == IF Ev.t = "NO" THEN grids[Ev.s].t ELSE Ev.t
               IN  Convert(Ev.r, Ev.s, t, ObsGrid(Obs(Ev.r), t))
            /\ Match

TSub == /\ IsEvent("sub")
        /\ IF Good THEN SubGrid(Ev.r, Ev.s, Ev.i1, Ev.i2, Ev.j1, Ev.j2)
           ELSE WindowEmpty(grids[Ev.s], Ev.i1, Ev.i2, Ev.j1, Ev.j2) /\ Keep
        /\ Match

TMask == /\ IsEvent("mask")
         /\ IF Good THEN Mask(Ev.r, Ev.mask) ELSE grids[Ev.r].t \notin {"DD", "CE"} /\ Keep
         /\ Ev.mask = Ev.mask0
         /\ Match

TSetMap == IsEvent("setmap") /\ Good /\ SetMapType(Ev.r, Ev.m) /\ Match

TFree == IsEvent("free") /\ Good /\ Destroy(Ev.r) /\ Match

\* calls that change no grid: writing, building, using and destroying maps
TKeep == IsEvent("keep") /\ Good /\ Keep /\ Match

TEnd == AtEnd /\ Keep

TInit == NodesInit /\ TraceStart
TNext == \/ TNew \/ TEmpty \/ TPoint \/ TValid \/ TStats \/ TCopy \/ TConvert
         \/ TSub \/ TMask \/ TSetMap \/ TFree \/ TKeep \/ TEnd
=============================================================================
