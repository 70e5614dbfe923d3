----------------------------- MODULE StorageTrace -----------------------------
(* Histories of library calls of all kinds, recorded with the number of       *)
(* blocks allocated (m) and of files open (f) after each.                     *)
EXTENDS Storage, TraceIO

O == <<Ev.k, Ev.r>>
D == Ev.m - blocks
Seen == files' = Ev.f

TMake == IsEvent("make") /\ SMake(O, D) /\ Seen
TUse == IsEvent("use") /\ SUse(O, D) /\ Seen
TDrop == IsEvent("drop") /\ SDrop(O, D) /\ Seen
TNone == IsEvent("none") /\ SNone(D) /\ Seen
TOpen == IsEvent("open") /\ SOpen(O, D) /\ Seen
TClose == IsEvent("close") /\ SClose(O, D) /\ Seen
TEnd == AtEnd /\ UNCHANGED svars

TInit == StorageInit /\ TraceStart
TNext == TMake \/ TUse \/ TDrop \/ TNone \/ TOpen \/ TClose \/ TEnd
=============================================================================
