--------------------------------- MODULE KdMC ---------------------------------
(* The kd-tree algorithms of the code on every sequence of up to N insertions *)
(* of points of a small lattice: descent on insertion, pruned search for the  *)
(* nearest node with its shrinking hyper-rectangle, pruned range search.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS D,    \* dimension
          M,    \* lattice points per axis
          N     \* insertions

VARIABLE t      \* sequence of nodes [c: coordinates, l, r: positions or 0, dir: axis]

Lattice == [1..D -> {2 * i : i \in 0..(M - 1)}]
Query == [1..D -> -1..(2 * M - 1)]

RECURSIVE Sq(_, _, _)
Sq(a, p, k) == IF k > D THEN 0 ELSE (a[k] - p[k]) * (a[k] - p[k]) + Sq(a, p, k + 1)
Dist2(a, p) == Sq(a, p, 1)

\* position of the parent and the side the new node goes to
RECURSIVE Descend(_, _, _)
Descend(s, c, k) ==
  LET left == c[s[k].dir] < s[k].c[s[k].dir]
      next == IF left THEN s[k].l ELSE s[k].r
  IN  IF next = 0 THEN <<k, left>> ELSE Descend(s, c, next)

Inserted(s, c) ==
  IF s = <<>> THEN <<[c |-> c, l |-> 0, r |-> 0, dir |-> 1]>>
  ELSE LET q == Descend(s, c, 1)
           new == [c |-> c, l |-> 0, r |-> 0, dir |-> (s[q[1]].dir % D) + 1]
           n == Len(s) + 1
       IN  Append([s EXCEPT ![q[1]] = IF q[2] THEN [@ EXCEPT !.l = n] ELSE [@ EXCEPT !.r = n]], new)

MInit == t = <<>>
MNext == Len(t) < N /\ \E c \in Lattice : t' = Inserted(t, c)

-----------------------------------------------------------------------------
\* every node is reached once, and lies on its side of every node above it
RECURSIVE Under(_, _)
Under(s, k) == IF k = 0 THEN <<>> ELSE <<k>> \o Under(s, s[k].l) \o Under(s, s[k].r)
AsSet(q) == {q[m] : m \in 1..Len(q)}

Structure == t # <<>> =>
  /\ Len(Under(t, 1)) = Len(t) /\ AsSet(Under(t, 1)) = 1..Len(t)
  /\ \A k \in 1..Len(t) :
       /\ \A m \in AsSet(Under(t, t[k].l)) : t[m].c[t[k].dir] < t[k].c[t[k].dir]
       /\ \A m \in AsSet(Under(t, t[k].r)) : t[m].c[t[k].dir] >= t[k].c[t[k].dir]

-----------------------------------------------------------------------------
\* distance of p to the hyper-rectangle
RECURSIVE RectDist(_, _, _, _)
RectDist(lo, hi, p, k) ==
  IF k > D THEN 0
  ELSE (IF p[k] < lo[k] THEN (lo[k] - p[k]) * (lo[k] - p[k])
        ELSE IF p[k] > hi[k] THEN (p[k] - hi[k]) * (p[k] - hi[k]) ELSE 0) + RectDist(lo, hi, p, k + 1)

Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Lo == [k \in 1..D |-> Least({t[m].c[k] : m \in 1..Len(t)})]
Hi == [k \in 1..D |-> -Least({-t[m].c[k] : m \in 1..Len(t)})]

RECURSIVE Search(_, _, _, _, _)
\* best: <<position, squared distance>>
Search(k, p, best, lo, hi) ==
  LET d == t[k].dir
      v == t[k].c[d]
      left == p[d] <= v
      near == IF left THEN t[k].l ELSE t[k].r
      far == IF left THEN t[k].r ELSE t[k].l
      b1 == IF near = 0 THEN best
            ELSE IF left THEN Search(near, p, best, lo, [hi EXCEPT ![d] = v])
            ELSE Search(near, p, best, [lo EXCEPT ![d] = v], hi)
      dk == Dist2(t[k].c, p)
      b2 == IF dk <= b1[2] THEN <<k, dk>> ELSE b1
      flo == IF left THEN [lo EXCEPT ![d] = v] ELSE lo
      fhi == IF left THEN hi ELSE [hi EXCEPT ![d] = v]
  IN  IF far # 0 /\ RectDist(flo, fhi, p, 1) < b2[2] THEN Search(far, p, b2, flo, fhi) ELSE b2

NearestLaw == t # <<>> => \A p \in Query :
  LET b == Search(1, p, <<0, Dist2(t[1].c, p)>>, Lo, Hi)
  IN  b[1] # 0 /\ \A m \in 1..Len(t) : Dist2(t[b[1]].c, p) <= Dist2(t[m].c, p)

-----------------------------------------------------------------------------
RECURSIVE Range(_, _, _)
\* nodes within R of p, in the order they are found
Range(k, p, R) ==
  IF k = 0 THEN <<>>
  ELSE LET d == t[k].dir
           dx == p[d] - t[k].c[d]
           near == IF dx <= 0 THEN t[k].l ELSE t[k].r
           far == IF dx <= 0 THEN t[k].r ELSE t[k].l
       IN  (IF Dist2(t[k].c, p) <= R * R THEN <<k>> ELSE <<>>) \o Range(near, p, R)
           \o (IF -R <= dx /\ dx <= R THEN Range(far, p, R) ELSE <<>>)

RangeLaw == t # <<>> => \A p \in Query : \A R \in 0..(2 * M) :
  LET s == Range(1, p, R)
  IN  Len(s) = Cardinality(AsSet(s)) /\ AsSet(s) = {m \in 1..Len(t) : Dist2(t[m].c, p) <= R * R}

\* keeping a list ordered while inserting into it
Put(out, x) == IF out = <<>> THEN <<x>>
               ELSE IF out[1] > x THEN <<x>> \o out
               ELSE LET n == CHOOSE n \in 1..Len(out) : (n = Len(out) \/ out[n + 1] >= x) /\ \A m \in 2..n : out[m] < x
                    IN  SubSeq(out, 1, n) \o <<x>> \o SubSeq(out, n + 1, Len(out))
RECURSIVE Ordered(_, _, _)
Ordered(s, k, out) == IF k > Len(s) THEN out ELSE Ordered(s, k + 1, Put(out, s[k]))
OrderLaw == t # <<>> => \A p \in Query :
  LET s == Range(1, p, 2 * M)
      o == Ordered([k \in 1..Len(s) |-> Dist2(t[s[k]].c, p)], 1, <<>>)
  IN  Len(o) = Len(s) /\ \A k \in 1..(Len(o) - 1) : o[k] <= o[k + 1]
=============================================================================
