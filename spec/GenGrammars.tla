----------------------------- MODULE GenGrammars ----------------------------
(* Prints the small usable grammars of MCParser, to be parsed with by the real code. *)
EXTENDS MCParser, Json
GInit == /\ g \in Good /\ w = <<>> /\ tab = <<>> /\ tree = <<>> /\ ran = <<>>
         /\ pos = 0 /\ stack = <<>> /\ made = 0 /\ out = "start"
GNext == out = "start" /\ PrintT("BEHAVIOUR " \o ToJson(g.alts)) /\ out' = "printed" /\ UNCHANGED <<g, w, tab, tree, ran, pos, stack, made>>
GSpec == GInit /\ [][GNext]_mvars
=============================================================================
