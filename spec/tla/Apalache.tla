---- MODULE Apalache ----
\* The operators that Quint's translation uses, for TLC: folds evaluated eagerly.
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt
__x := __e == __x = __e
Gen(__size) == {}
Skolem(__e) == __e
Expand(__S) == __S
ConstCardinality(__c) == __c
SetAsFun(__S) ==
    LET __Dom == { __p[1] : __p \in __S } IN
    [ __d \in __Dom |-> (CHOOSE __p \in __S : __p[1] = __d)[2] ]
MkSeq(__N, __F(_)) == [ __i \in (1..__N) |-> __F(__i) ]
ApaFoldSet(__Op(_,_), __v, __S) == FoldLeft(__Op, __v, SetToSeq(__S))
ApaFoldSeqLeft(__Op(_,_), __v, __seq) == FoldLeft(__Op, __v, __seq)
====
