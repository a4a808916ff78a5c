--------------------------------- MODULE Scan -------------------------------
(* Looking at a text w from offset i (characters before it). *)
EXTENDS Integers, Sequences, Chars
No == 0 - 1
Ch(w, i) == IF i < Len(w) THEN w[i + 1] ELSE No
Least(S, otherwise) == IF S = {} THEN otherwise ELSE CHOOSE x \in S : \A y \in S : x <= y
Sp(w, i) == Least({j \in i..(Len(w) - 1) : ~IsSpace(w[j + 1])}, Len(w))
NameTo(w, i) == Least({j \in i..(Len(w) - 1) : ~IsNameChar(w[j + 1])}, Len(w))
Cut(w, i, j) == SubSeq(w, i + 1, j)
AtName(w, i) == i < Len(w) /\ IsAlpha(w[i + 1])
=============================================================================
