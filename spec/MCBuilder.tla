------------------------------ MODULE MCBuilder -----------------------------
EXTENDS Builder, TLC
CONSTANTS Names, MaxAlts
E == {"t", "n"} \X Names
Seqs == {<<>>, <<0>>, <<1, 0>>}
MCNext == \/ \E e \in E, ix \in 0..Cardinality(E) : Mention(e, ix)
          \/ \E p \in 0..1 : /\ p < Len(elems)
                             /\ \/ Len(AltsOf(p)) < MaxAlts /\ \E a \in Seqs : AddProduction(p, a)
                                \/ \E as \in {<<>>, <<<<0>>>>, <<<<>>, <<1>>>>} : SetProductions(p, as)
                                \/ \E is \in {<<>>, <<5>>, <<6, 5>>} : SetInstructions(p, is)
MCSpec == BuilderInit /\ [][MCNext]_bvars
LookupOK == \A e \in E : /\ (IndexOf(e) = <<>>) = (e \notin Range(elems))
                         /\ IndexOf(e) # <<>> => Element(IndexOf(e)[1]) = <<e>>
\* alternatives and instructions do not influence each other
Separate == [][alts' = alts \/ inst' = inst]_bvars
=============================================================================
