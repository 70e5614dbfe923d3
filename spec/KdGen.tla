--------------------------------- MODULE KdGen ---------------------------------
(* Behaviours of KdTree to be run in the code: every sequence of insertions,  *)
(* one by one or in batches, of points of a small lattice.  The shape of the  *)
(* tree depends on the order, so that all of them are told apart.             *)
EXTENDS KdTree, Json

CONSTANTS D,      \* dimension
          M,      \* lattice points per axis
          N,      \* nodes
          B       \* largest batch

VARIABLE hist

Lattice == [1..D -> {2 * i : i \in 0..(M - 1)}]
Bad == [k \in 1..D |-> -1]          \* stands for a point without finite coordinates
Tuple(f) == [k \in 1..D |-> f[k]]

GInit == trees = (0 :> [d |-> D, n |-> 0, s |-> {}, x |-> <<>>]) /\ hist = <<>>

Size == trees[0].n
\* ids of single insertions: counted down, so that they differ from positions
One(c) == <<<<1, 100 - Size>> \o c>>

GNext ==
  \/ \E c \in Lattice : Size < N /\ KInsert(0, One(c)) /\ hist' = Append(hist, <<"ins", One(c)>>)
  \/ \E n \in 2..B : \E f \in [1..n -> Lattice \cup {Bad}] :
       /\ Size + n <= N /\ \E k \in 1..n : f[k] # Bad
       /\ \E ps \in {[k \in 1..n |-> <<IF f[k] = Bad THEN 0 ELSE 1>> \o f[k]]} :
            KBatch(0, ps) /\ hist' = Append(hist, <<"batch", ps>>)

View == hist

Emit == PrintT(ToJson(hist'))
=============================================================================
