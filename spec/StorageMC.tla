------------------------------ MODULE StorageMC ------------------------------
(* Any calls that keep the accounts of Storage: with no object left nothing   *)
(* is left.                                                                   *)
EXTENDS Storage

CONSTANTS Most
Objects == {<<"G", 0>>, <<"P", 0>>, <<"P", 1>>, <<"M", 0>>, <<"A", 0>>}
Streams == {<<"F", 0>>, <<"F", 1>>}

MInit == StorageInit
MNext == \E d \in -Most..Most : /\ blocks + d \in 0..Most
                              /\ \/ \E o \in Objects : SMake(o, d) \/ SUse(o, d) \/ SDrop(o, d)
                                 \/ SNone(d)
                                 \/ \E h \in Streams : SOpen(h, d) \/ SClose(h, d)
=============================================================================
