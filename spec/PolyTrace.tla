------------------------------- MODULE PolyTrace -------------------------------
(* Histories of calls on polylines, recorded with the state of all of them.   *)
EXTENDS Poly, TraceIO

Good == Ev.q = 0

\* points and bounding boxes of all live polylines
Match == /\ Len(Ev.st) = Cardinality(DOMAIN polys')
         /\ \A k \in 1..Len(Ev.st) :
              LET o == Ev.st[k] IN
              /\ o[1] \in DOMAIN polys'
              /\ o[2] = polys'[o[1]]
              /\ (Len(o[2]) > 0 /\ Len(o[3]) > 0) => o[3] = Box(o[2])

Is(op) == IsEvent(op) /\ Good

TNew == Is("new") /\ PNew(Ev.r, Ev.p) /\ Match
TAdd == Is("add") /\ PAdd(Ev.r, Ev.p) /\ Match
TAddNaN == IsEvent("addnan") /\ Ev.q = 1 /\ PAddNaN(Ev.r) /\ Match
TAddAt == Is("addat") /\ PAddAt(Ev.r, Ev.k, Ev.p) /\ Match
TAppend == Is("append") /\ PAppend(Ev.r, Ev.s) /\ Match
TDelete == Is("delete") /\ PDelete(Ev.r, Ev.k) /\ Match
TReverse == Is("reverse") /\ PReverse(Ev.r) /\ Match
TClose == Is("close") /\ PClose(Ev.r) /\ Match
TClear == Is("clear") /\ PClear(Ev.r) /\ Match
TCopy == Is("copy") /\ PCopy(Ev.r, Ev.s) /\ Match
TFree == Is("free") /\ PFree(Ev.r) /\ Match
TThin == Is("thin") /\ PThin(Ev.r, Ev.eps) /\ Match
TDespike == Is("despike") /\ PDespike(Ev.r, Ev.eps) /\ Match
TCompact == Is("compact") /\ PCompact(Ev.r) /\ Match
TInside == Is("inside") /\ PInside(Ev.r, Ev.p, Ev.ret) /\ Match
\* a lattice of points x0 + i * dx, y0 + j * dy
TInsideMany == /\ Is("insidemany")
               /\ \A j \in 0..(Ev.ny - 1) : \A i \in 0..(Ev.nx - 1) :
                     (Ev.res[j * Ev.nx + i + 1] = 1) = (Len(polys[Ev.r]) > 1 /\ InsideEvenOdd(polys[Ev.r], <<Ev.x0 + i * Ev.dx, Ev.y0 + j * Ev.dy>>))
               /\ PKeep /\ Match
TFind == Is("find") /\ PFind(Ev.r, Ev.p, Ev.ret) /\ Match
TClosedQ == Is("isclosed") /\ PClosedQ(Ev.r, Ev.eps, Ev.ret) /\ Match
TArea == Is("area") /\ PArea(Ev.r, Ev.a2) /\ Match
TPut == Is("fput") /\ FPut(Ev.name, Ev.lines)
TOpen == Is("fopen") /\ FOpen(Ev.h, Ev.name, Ev.w)
TFClose == Is("fclose") /\ FClose(Ev.h)
TWrite == Is("write") /\ PWrite(Ev.r, Ev.h) /\ Match
TRead == Is("read") /\ PRead(Ev.r, Ev.h, Ev.ret) /\ Match
TReadNaN == IsEvent("read") /\ Ev.q = 1 /\ PReadNaN(Ev.r, Ev.h) /\ Match
TContent == Is("fcat") /\ FContent(Ev.name, Ev.lines)
TEnd == AtEnd /\ PKeep

TInit == PolyInit /\ TraceStart
TNext == \/ TNew \/ TAdd \/ TAddNaN \/ TAddAt \/ TAppend \/ TDelete \/ TReverse \/ TClose \/ TClear \/ TCopy \/ TFree
         \/ TThin \/ TDespike \/ TCompact \/ TInside \/ TInsideMany \/ TFind \/ TClosedQ \/ TArea
         \/ TPut \/ TOpen \/ TFClose \/ TWrite \/ TRead \/ TReadNaN \/ TContent \/ TEnd
=============================================================================
