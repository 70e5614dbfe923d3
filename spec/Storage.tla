------------------------------- MODULE Storage -------------------------------
(* What a history of library calls holds: blocks of storage and open files.   *)
(* Every call is about one object (or none); what it takes and does not give  *)
(* back belongs to that object, and destroying the object returns exactly     *)
(* that.  Maps and averagers share one account, since an averager works       *)
(* through its map.  Only the caller's own handles are open files.            *)
EXTENDS Integers, FiniteSets, Sequences, TLC

VARIABLES own,      \* object (grid, polyline, tree) -> blocks it holds
          shared,   \* live maps and averagers
          pool,     \* blocks they hold together
          handles,  \* streams the caller holds
          blocks,   \* all blocks held
          files     \* all files open

svars == <<own, shared, pool, handles, blocks, files>>

StorageInit == own = <<>> /\ shared = {} /\ pool = 0 /\ handles = {} /\ blocks = 0 /\ files = 0

SWith(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
SWithout(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

Shares(o) == o[1] \in {"M", "A"}

\* d: blocks taken less blocks returned by the call
Taken(d) == blocks' = blocks + d

SMake(o, d) == /\ IF Shares(o)
                  THEN /\ o \notin shared /\ shared' = shared \cup {o}
                       /\ pool' = pool + d /\ pool' >= 0 /\ own' = own
                  ELSE /\ o \notin DOMAIN own /\ d >= 0
                       /\ own' = SWith(own, o, d) /\ UNCHANGED <<shared, pool>>
               /\ Taken(d) /\ UNCHANGED <<handles, files>>

SUse(o, d) == /\ IF Shares(o)
                 THEN o \in shared /\ pool' = pool + d /\ pool' >= 0 /\ UNCHANGED <<own, shared>>
                 ELSE o \in DOMAIN own /\ own[o] + d >= 0 /\ own' = [own EXCEPT ![o] = @ + d] /\ UNCHANGED <<shared, pool>>
              /\ Taken(d) /\ UNCHANGED <<handles, files>>

SDrop(o, d) == /\ IF Shares(o)
                  THEN /\ o \in shared /\ shared' = shared \ {o}
                       /\ pool' = pool + d /\ pool' >= 0 /\ (shared' = {} => pool' = 0) /\ own' = own
                  ELSE o \in DOMAIN own /\ own[o] + d = 0 /\ own' = SWithout(own, o) /\ UNCHANGED <<shared, pool>>
               /\ Taken(d) /\ UNCHANGED <<handles, files>>

\* a call about no object keeps nothing
SNone(d) == d = 0 /\ UNCHANGED svars

SOpen(h, d) == h \notin handles /\ handles' = handles \cup {h} /\ files' = files + 1 /\ d = 0 /\ UNCHANGED <<own, shared, pool, blocks>>
SClose(h, d) == h \in handles /\ handles' = handles \ {h} /\ files' = files - 1 /\ d = 0 /\ UNCHANGED <<own, shared, pool, blocks>>

-----------------------------------------------------------------------------
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})

Accounted == blocks = SumOf(own, DOMAIN own) + pool
NothingLeft == (own = <<>> \/ DOMAIN own = {}) /\ shared = {} => blocks = 0
FilesLaw == files = Cardinality(handles)
=============================================================================
