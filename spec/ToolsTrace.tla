------------------------------ MODULE ToolsTrace ------------------------------
(* Sequences of program runs, recorded from the code.                         *)
EXTENDS Tools, TraceIO

tvars == <<mvars, fs, tid, l>>

\* every program leaves the files it was given as they were
Leaves == Ev.same = 1

TPut == IsEvent("put") /\ Put(Ev.f, Ev.c)
TGetNodes == IsEvent("getnodes") /\ Leaves /\ GetNodes(Ev) = TRUE /\ Result(Ev.d, Ev)
TSubGrid == IsEvent("subgrid") /\ Leaves /\ SubGridRun(Ev) = TRUE /\ Result(Ev.d, Ev)
TInsert == IsEvent("insertgrid") /\ Leaves /\ InsertRun(Ev) = TRUE /\ Result(Ev.d, Ev)
TSet == IsEvent("setbathy") /\ Leaves /\ SetBathy(Ev) = TRUE /\ UNCHANGED fs
TBound == IsEvent("getbound") /\ Leaves /\ GetBound(Ev) = TRUE /\ UNCHANGED fs
TConvert == IsEvent("xy2ij") /\ Leaves /\ Convert2(Ev) = TRUE /\ UNCHANGED fs
TLibRead == IsEvent("libread") /\ Leaves /\ LibRead(Ev) = TRUE /\ UNCHANGED fs
TLibMask == IsEvent("libmask") /\ Leaves /\ LibMask(Ev) = TRUE /\ UNCHANGED fs
TBathy == IsEvent("gridbathy") /\ Leaves /\ GridBathy(Ev) = TRUE /\ UNCHANGED fs
TBad == IsEvent("bad") /\ Leaves /\ BadArguments(Ev) = TRUE /\ UNCHANGED fs
TEnd == AtEnd /\ UNCHANGED fs

TInit == MapInit /\ ToolsInit /\ TraceStart
TNext == /\ UNCHANGED mvars
         /\ \/ TPut \/ TGetNodes \/ TSubGrid \/ TInsert \/ TSet \/ TBound \/ TConvert \/ TLibRead \/ TLibMask \/ TBathy \/ TBad \/ TEnd
=============================================================================
