------------------------------ MODULE KdProgTrace ------------------------------
(* Runs of the kd program over files.                                         *)
EXTENDS KdProg, TraceIO

\* a file is read in d dimensions by every run; what was in the tree before is gone
TLoad == IsEvent("load") /\ PLoad(Ev.L, Ev.d)
TRun == IsEvent("kd") /\ Ev.same = 1 /\ Ev.ok = 1 /\ PRun(Ev.g, Ev.p, Ev.range, Ev.R, Ev.sorted, Ev.o)
\* no file, no dimension, or another number of coordinates than dimensions
TRefused == IsEvent("bad") /\ Ev.same = 1 /\ Ev.ok = 0 /\ UNCHANGED trees
TEnd == AtEnd /\ UNCHANGED trees

TInit == KInit /\ TraceStart
TNext == TLoad \/ TRun \/ TRefused \/ TEnd
=============================================================================
