------------------------------ MODULE KdTreeTrace ------------------------------
(* Histories of calls on kd-trees.                                            *)
EXTENDS KdTree, TraceIO

Is(op) == IsEvent(op) /\ Ev.q = 0

SizeSeen(k) == Ev.size = trees'[k].n

TNew == Is("new") /\ KNew(Ev.k, Ev.d)
TInsert == Is("insert") /\ KInsert(Ev.k, Ev.ps) /\ SizeSeen(Ev.k)
TBatch == Is("batch") /\ KBatch(Ev.k, Ev.ps) /\ SizeSeen(Ev.k)
TDump == Is("dump") /\ KDump(Ev.k, Ev.nodes, Ev.size, Ev.mm)
TNearest == Is("nearest") /\ KNearest(Ev.k, Ev.p, Ev.none, Ev.nd)
\* reading past the end kept reporting no more results, and no other size
TRange == Is("range") /\ Ev.extra = 0 /\ Ev.size2 = Ev.size /\ KRange(Ev.k, Ev.p, Ev.R, Ev.ordered, Ev.res, Ev.size)
TFree == Is("free") /\ KFree(Ev.k)
TEnd == AtEnd /\ UNCHANGED trees

TInit == KInit /\ TraceStart
TNext == TNew \/ TInsert \/ TBatch \/ TDump \/ TNearest \/ TRange \/ TFree \/ TEnd
=============================================================================
