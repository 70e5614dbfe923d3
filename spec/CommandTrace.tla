----------------------------- MODULE CommandTrace -----------------------------
(* Runs of the programs: an event per argument, then the outcome.  A job is   *)
(* compared with the run of the same settings given in a fixed order, without *)
(* -v.                                                                        *)
EXTENDS CommandLine, TraceIO

TArg == /\ IsEvent("arg")
        /\ \/ TakeRest
           \/ Ev.t[1] = "o" /\ want = <<>> /\ TakeOption(Ev.t[2])
           \/ Ev.t[1] = "w" /\ want = <<>> /\ TakeWord(Ev.t[2])
           \/ want # <<>> /\ TakeValue(Ev.w)

AsFunction(s) == [k \in {s[m][1] : m \in 1..Len(s)} |-> s[CHOOSE m \in 1..Len(s) : s[m][1] = k][2]]

TRan == /\ IsEvent("ran")
        /\ \/ "told" \in Outcomes /\ Ev.told = 1
           \/ "refused" \in Outcomes /\ Ev.refused = 1
           \/ /\ Outcomes = {"job"} /\ Ev.job = 1
              /\ Settings = AsFunction(Ev.set) /\ ops = Ev.ops
        /\ UNCHANGED cvars

TEnd == AtEnd /\ UNCHANGED cvars

TInit == TraceStart /\ CInit(Traces[tid].cfg.p)
TNext == TArg \/ TRan \/ TEnd
=============================================================================
