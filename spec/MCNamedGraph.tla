---------------------------- MODULE MCNamedGraph ----------------------------
EXTENDS NamedGraph, TLC
CONSTANTS Names, MaxEdges
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE Len(s[k]) + Sum(s, k - 1)
MCNext == \/ \E x \in Names, d \in 0..1 : AddNode(x, d, IF Known(x) THEN <<>> ELSE <<Len(data)>>)
          \/ Sum(succ, Len(succ)) < MaxEdges /\ \E s, t \in Names : \E r \in {<<>>, <<0>>} : AddEdge(s, t, r)
          \/ \E x \in Names, d \in 0..1, r \in {<<>>, <<0>>} : SetData(x, d, r)
          \/ \E n \in 0..4, d \in 0..1, r \in {<<>>, <<0>>} : SetDataIx(n, d, r)
MCSpec == NamedInit /\ [][MCNext]_nvars
ByNameAndIndex == \A x \in DOMAIN names : Data(x) = DataAt(IndexOf(x)[1])
=============================================================================
