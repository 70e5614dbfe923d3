------------------------------ MODULE CommandMC ------------------------------
(* Every argument list up to a length: the settings are those last given, in  *)
(* any order, and options never become operands.                              *)
EXTENDS CommandLine

CONSTANTS P, Longest
VARIABLES given,    \* the options given, with their values, in order
          n

Words == {<<"g", "G">>, <<"co", "CO">>, <<"Ce", "CE">>, <<"2", "2">>}
MInit == CInit(P) /\ given = <<>> /\ n = 0
MNext == /\ n < Longest /\ n' = n + 1
         /\ \/ \E o \in Letters : TakeOption(o) /\ (IF o \in Flags(P) THEN given' = Append(given, <<Key(o), <<o>>>>) ELSE given' = given)
            \/ \E w \in Words : TakeWord(w) /\ given' = given
            \/ \E w \in Words : TakeValue(w) /\ (IF want' = <<>> /\ told' = {} THEN given' = Append(given, <<want[1], set'[want[1]]>>) ELSE given' = given)
            \/ TakeRest /\ given' = given

LastOf(k) == LET S == {m \in 1..Len(given) : given[m][1] = k} IN given[CHOOSE m \in S : \A q \in S : q <= m][2]
Complete == {given[m][1] : m \in 1..Len(given)}
SetLaw == want = <<>> /\ told = {} => DOMAIN set = Complete /\ \A k \in Complete : set[k] = LastOf(k)
TypeLaw == \A k \in DOMAIN set : IsType(P, k) => set[k][1] \in TypesOf(P)
OpsLaw == Len(ops) <= Operands(P)
JobLaw == Outcomes = {"job"} => want = <<>> /\ Len(ops) = Operands(P)
=============================================================================
