-------------------------------- MODULE KdTree --------------------------------
(* kd-trees as bags of stored nodes <<id, c1, ..., cd>>: the set of nodes, and *)
(* for those stored more than once the number of copies.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE trees   \* register -> [d: dimension, n: number of nodes, s: set of nodes, x: copies of multiple nodes]

KInit == trees = <<>>

KWith(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
KWithout(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

\* squared distance of node nd to point p
RECURSIVE Sq(_, _, _)
Sq(nd, p, k) == IF k > Len(p) THEN 0 ELSE (nd[k + 1] - p[k]) * (nd[k + 1] - p[k]) + Sq(nd, p, k + 1)
Dist2(nd, p) == Sq(nd, p, 1)

\* <<min 1, .., min d, max 1, .., max d>>
MinOf(S, k) == LET v == {nd[k + 1] : nd \in S} IN CHOOSE a \in v : \A b \in v : a <= b
MaxOf(S, k) == LET v == {nd[k + 1] : nd \in S} IN CHOOSE a \in v : \A b \in v : b <= a
RECURSIVE Tightest(_, _, _, _)
Tightest(S, d, k, out) == IF k > 2 * d THEN out
                          ELSE Tightest(S, d, k + 1, Append(out, IF k <= d THEN MinOf(S, k) ELSE MaxOf(S, k - d)))

\* A point to insert: <<finite (1/0), id, c1, ..>>; the finite ones are stored
Stored(ps) == {SubSeq(ps[k], 2, Len(ps[k])) : k \in {m \in 1..Len(ps) : ps[m][1] = 1}}
Count(ps) == Cardinality({m \in 1..Len(ps) : ps[m][1] = 1})

\* number of copies of nd among points to insert, and among those stored
CopiesIn(ps, nd) == Cardinality({m \in 1..Len(ps) : ps[m][1] = 1 /\ SubSeq(ps[m], 2, Len(ps[m])) = nd})
Copies(t, nd) == IF nd \in DOMAIN t.x THEN t.x[nd] ELSE IF nd \in t.s THEN 1 ELSE 0

Multiple(t, ps, all) ==
  IF Cardinality(all) = Cardinality(t.s) + Count(ps) THEN t.x
  ELSE LET new == {nd \in Stored(ps) : Copies(t, nd) + CopiesIn(ps, nd) > 1}
       IN  [nd \in (DOMAIN t.x) \cup new |-> Copies(t, nd) + CopiesIn(ps, nd)]

KNew(k, d) == k \notin DOMAIN trees /\ trees' = KWith(trees, k, [d |-> d, n |-> 0, s |-> {}, x |-> <<>>])

Insert(k, ps) == \E all \in {trees[k].s \cup Stored(ps)} :
  trees' = [trees EXCEPT ![k] = [d |-> @.d, n |-> @.n + Count(ps), s |-> all, x |-> TLCEval(Multiple(@, ps, all))]]

\* single insertions with given ids
KInsert(k, ps) == Insert(k, ps)

\* a batch: points <<finite, c1, ..>> get the number of nodes stored before
\* plus their position in the batch
KBatch(k, ps) ==
  Insert(k, [m \in 1..Len(ps) |-> <<ps[m][1], trees[k].n + m - 1>> \o SubSeq(ps[m], 2, Len(ps[m]))])

\* contents as observed: sequence of nodes, size, bounding box
KDump(k, nodes, size, mm) ==
  /\ size = trees[k].n
  /\ Len(nodes) = size
  /\ {nodes[m] : m \in 1..Len(nodes)} = trees[k].s
  /\ \A nd \in DOMAIN trees[k].x : Cardinality({m \in 1..Len(nodes) : nodes[m] = nd}) = trees[k].x[nd]
  /\ size > 0 => mm = Tightest(trees[k].s, trees[k].d, 1, <<>>)
  /\ UNCHANGED trees

\* nearest node: none = 1 if there is none
KNearest(k, p, none, nd) ==
  /\ (none = 1) = (trees[k].n = 0)
  /\ none = 0 => /\ nd \in trees[k].s
                 /\ \A m \in trees[k].s : Dist2(nd, p) <= Dist2(m, p)
  /\ UNCHANGED trees

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET a == CHOOSE a \in S : TRUE IN f[a] + Sum(f, S \ {a})
Extra(t, S) == Sum([nd \in DOMAIN t.x |-> t.x[nd] - 1], S \cap DOMAIN t.x)

\* all nodes within R/2 of p; res: sequence of <<tree position, node, squared distance>>
KRange(k, p, R, ordered, res, size) ==
  LET want == {nd \in trees[k].s : 4 * Dist2(nd, p) <= R * R}
  IN  /\ size = Len(res)
      /\ Cardinality({res[m][1] : m \in 1..Len(res)}) = Len(res)
      /\ {res[m][2] : m \in 1..Len(res)} = want
      /\ \A nd \in want \cap DOMAIN trees[k].x : Cardinality({m \in 1..Len(res) : res[m][2] = nd}) = trees[k].x[nd]
      /\ Len(res) = Cardinality(want) + Extra(trees[k], want)
      /\ \A m \in 1..Len(res) : res[m][3] = Dist2(res[m][2], p)
      /\ ordered = 1 => \A m \in 1..(Len(res) - 1) : res[m][3] <= res[m + 1][3]
  /\ UNCHANGED trees

KFree(k) == k \in DOMAIN trees /\ trees' = KWithout(trees, k)
=============================================================================
