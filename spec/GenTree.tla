------------------------------- MODULE GenTree ------------------------------
(* All behaviours of Tree up to a depth, written out for the driver: additions below every handle ever given out
   (present or not), removals of every one. *)
EXTENDS Tree, TLC, Json, IOUtils
CONSTANT Depth
VARIABLE hist
H(n) == <<n>>
N == Cardinality(used)
Ref(h) == IF h = None THEN 0 - 1 ELSE h[1] - 1
GInit == TreeInit /\ hist = <<>>
Do(a) == hist' = Append(hist, a)
GNext == /\ Len(hist) < Depth
         /\ \/ \E p \in used \cup {None} : Do(<<"add", Ref(p)>>) /\ (IF p = None \/ p \in Live THEN Add(p, 0, H(N + 1)) ELSE AddRefused(p))
            \/ \E p \in used : Do(<<"rm", Ref(p)>>) /\ (Remove(p) \/ RemoveRefused(p))
GSpec == GInit /\ [][GNext]_<<f, used, hist>>
Emit == Len(hist) = Depth => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
