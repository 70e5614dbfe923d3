----------------------------- MODULE CommandLine -----------------------------
(* How the programs take their arguments: an automaton that reads them one by *)
(* one.  A word is <<literal, literal in upper case>>, an option a letter.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES prog,     \* the program
          set,      \* option -> values; "ct": which coordinates are printed
          ops,      \* operands
          want,     \* <<>> or <<option, number of values it still wants>>
          told      \* {} or the outcomes allowed by what was met

cvars == <<prog, set, ops, want, told>>

Flags(p) == CASE p = "getnodes" -> {"p", "x", "y", "v"} [] p = "getbound" -> {"c", "r", "v"}
              [] p = "subgrid" -> {"x", "y", "v"} [] p = "setbathy" -> {"v"} [] p = "insertgrid" -> {"m", "v"}
              [] p = "xy2ij" -> {"f", "k", "r", "v"} [] p = "gridbathy" -> {"x", "v"}
One(p) == CASE p = "getnodes" -> {"i", "o", "m"} [] p = "getbound" -> {"i"}
            [] p = "subgrid" -> {"i", "j"} [] p = "setbathy" -> {"i", "j", "d", "o", "z"} [] p = "insertgrid" -> {"i"}
            [] p = "xy2ij" -> {"g", "i", "o"} [] p = "gridbathy" -> {"a", "b", "g", "i", "m", "n"}
Two(p) == IF p = "gridbathy" THEN {"c", "r"} ELSE {}
Operands(p) == CASE p = "insertgrid" -> 4 [] p \in {"xy2ij", "gridbathy"} -> 0 [] OTHER -> 1
Needed(p) == CASE p = "setbathy" -> {"z"} [] p = "xy2ij" -> {"g", "o"} [] p = "gridbathy" -> {"b", "g"} [] OTHER -> {}
IsType(p, o) == \/ o = "i" /\ p \notin {"subgrid", "setbathy"}
                \/ o = "o" /\ p = "getnodes"
TypesOf(p) == IF p \in {"getnodes", "insertgrid"} THEN {"DD", "CE", "CO"} ELSE {"DD", "CO"}
HasHelp(p) == p # "setbathy"
Letters == {"c", "i", "r", "v", "x", "y", "p", "m", "o", "f", "k", "g", "a", "b", "n", "d", "z", "j", "h", "q", "w"}

\* what is said, to standard output with success or as an error
Talk == {"told"}
Refuse == {"refused"}
Either == {"told", "refused"}

CInit(p) == prog = p /\ set = <<>> /\ ops = <<>> /\ want = <<>> /\ told = {}

Put(k, v) == [x \in (DOMAIN set) \cup {k} |-> IF x = k THEN v ELSE set[x]]
Key(o) == IF o \in {"x", "y"} /\ prog # "gridbathy" THEN "ct" ELSE o
\* values as they matter: types in any case
Value(o, w) == IF IsType(prog, o) THEN w[2] ELSE w[1]

\* an argument taken as the value of the option before it
TakeValue(w) ==
  /\ told = {} /\ want # <<>>
  /\ IF IsType(prog, want[1]) /\ w[2] \notin TypesOf(prog)
     THEN told' = Refuse /\ UNCHANGED <<set, want>>
     ELSE /\ want' = IF want[2] = 1 THEN <<>> ELSE <<want[1], want[2] - 1>>
          /\ set' = IF want[2] = 1 /\ want[1] \in Two(prog) THEN Put(want[1], set[want[1]] \o <<w[1]>>)
                    ELSE Put(want[1], <<Value(want[1], w)>>)
          /\ UNCHANGED told
  /\ UNCHANGED <<prog, ops>>

TakeWord(w) ==
  /\ told = {} /\ want = <<>>
  /\ IF Len(ops) < Operands(prog) THEN ops' = Append(ops, w[1]) /\ UNCHANGED told
     ELSE told' = Either /\ UNCHANGED ops
  /\ UNCHANGED <<prog, set, want>>

TakeOption(o) ==
  /\ told = {} /\ want = <<>>
  /\ IF o \in Flags(prog) THEN set' = Put(Key(o), <<o>>) /\ UNCHANGED <<want, told>>
     ELSE IF o \in One(prog) THEN want' = <<o, 1>> /\ UNCHANGED <<set, told>>
     ELSE IF o \in Two(prog) THEN want' = <<o, 2>> /\ UNCHANGED <<set, told>>
     ELSE told' = (IF o = "h" /\ HasHelp(prog) THEN Talk ELSE Either) /\ UNCHANGED <<set, want>>
  /\ UNCHANGED <<prog, ops>>

\* the rest is not looked at
TakeRest == told # {} /\ UNCHANGED cvars

\* the outcomes allowed after the last argument; "job": the settings are obeyed
Outcomes == IF told # {} THEN told
            ELSE IF want # <<>> \/ Len(ops) < Operands(prog) \/ ~(Needed(prog) \subseteq DOMAIN set) THEN Either
            ELSE {"job"}

Settings == [k \in (DOMAIN set) \ {"v"} |-> set[k]]
=============================================================================
