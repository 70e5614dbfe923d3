------------------------------- MODULE TraceIO -------------------------------
(* Recorded histories: file $TRACES has one history per line,                 *)
(* {"id": .., "cfg": {..}, "ev": [event, ...]}, an event per call or run.     *)
(* A trace specification has one initial state per history (tid) and consumes *)
(* its events one by one (l); Finished is the only step after the last one.   *)
(* An event no action can consume is a deadlock: the history is rejected.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l

Ev == Traces[tid].ev[l]
Cfg == Traces[tid].cfg

TraceStart == tid \in 1..Len(Traces) /\ l = 1

IsEvent(op) == /\ l <= Len(Traces[tid].ev)
               /\ Ev.op = op
               /\ l' = l + 1 /\ tid' = tid

AtEnd == l > Len(Traces[tid].ev) /\ l' = l /\ tid' = tid

Alias == [tid |-> tid, l |-> l]
=============================================================================
