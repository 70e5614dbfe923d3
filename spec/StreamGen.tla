------------------------------- MODULE StreamGen -------------------------------
(* Behaviours of Poly around streams, to be run in the code: every file of up *)
(* to MaxLines lines of the four kinds, and every sequence of up to MaxReads  *)
(* readings from it into two polylines; and what is written before.           *)
EXTENDS Poly, Json

CONSTANTS MaxLines, MaxReads, MaxWrites

VARIABLE hist

Kinds == {"p", "c", "h", "x"}
Line(k, n) == CASE k = "p" -> <<"p", n, -n>> [] k = "h" -> <<"h", n>> [] k = "c" -> <<"c">> [] OTHER -> <<"x">>
Does(c) == hist' = Append(hist, c)

GInit == PolyInit /\ hist = <<>>

Writing == \E h \in DOMAIN open : open[h].w = 1
Reading == \E h \in DOMAIN open : open[h].w = 0
Count(op) == Cardinality({k \in 1..Len(hist) : hist[k][1] = op})
Result(r) ==
  LET f == files[open[1].name]
      a == SkipTo(f, open[1].pos)
  IN  IF a = Len(f) THEN 0 ELSE Len(polys[r]) + PointsTo(f, a) - a

GNext ==
  \/ hist = <<>> /\ PNew(0, <<>>) /\ Does(<<"new", 0, <<>>>>)
  \/ Len(hist) = 1 /\ PNew(1, <<<<9, 9>>, <<8, 7>>>>) /\ Does(<<"new", 1, <<<<9, 9>>, <<8, 7>>>>>>)
  \/ /\ Len(hist) = 2
     /\ \/ \E n \in 0..MaxLines : \E f \in [1..n -> Kinds] :
             \E ls \in {[k \in 1..n |-> Line(f[k], k)]} : FPut("a", ls) /\ Does(<<"fput", "a", ls>>)
        \/ MaxWrites > 0 /\ FOpen(0, "a", 1) /\ Does(<<"fopen", 0, "a", 1>>)
  \/ Writing /\ Count("write") < MaxWrites /\ \E r \in {0, 1} : PWrite(r, 0) /\ Does(<<"write", r, 0>>)
  \/ Writing /\ Count("write") > 0 /\ FClose(0) /\ Does(<<"fclose", 0>>)
  \/ files # <<>> /\ open = <<>> /\ Count("read") = 0 /\ FOpen(1, "a", 0) /\ Does(<<"fopen", 1, "a", 0>>)
  \/ Reading /\ Count("read") < MaxReads /\ \E r \in {0, 1} : PRead(r, 1, Result(r)) /\ Does(<<"read", r, 1>>)

View == hist

Emit == PrintT(ToJson(hist'))
=============================================================================
