------------------------------- MODULE MCTree -------------------------------
(* Every behaviour of Tree with handles 1, 2, ... in order of birth, and at most MaxAdds additions. *)
EXTENDS Tree, TLC
CONSTANT MaxAdds
H(n) == <<n>>
Adds == Cardinality(used)
Anyone == used \cup {H(99)}
MCNext == \/ Adds < MaxAdds /\ \E p \in Live \cup {None} : Add(p, 0, H(Adds + 1))
          \/ \E p \in Anyone : AddRefused(p) \/ Remove(p) \/ RemoveRefused(p) \/ SetRefused(p)
          \/ \E p \in Live : SetData(p, 1 - f[p].d)
MCSpec == TreeInit /\ [][MCNext]_tvars
\* following positions and membership agree
WalkOK == \A h \in Live : \A n \in 0..MaxAdds :
            /\ (n < Len(f[h].kids)) = (Walk(h, <<n>>) # None)
            /\ n < Len(f[h].kids) => Walk(h, <<n>>) \in Descendants(h)
DescOK == \A h \in Live : \A x \in Live :
            (x \in Descendants(h)) = (x # h /\ f[x].up # None /\ (f[x].up = h \/ f[x].up \in Descendants(h)))
=============================================================================
