------------------------------ MODULE MCMachines ----------------------------
(* The counting machine on all small usable grammars and short scripts: what it has counted is the number of instructions
   of the completed productions; the null machine stays what it was; neither has a say in the verdict. *)
EXTENDS MCParser
VARIABLES count, n, m
Ma == INSTANCE Machines
cvars == <<pos, stack, made, out, g, tab, w, tree, ran, count, n, m>>
CInit == Init /\ count = 5 /\ n \in {<<1, 0>>, <<0, 2>>, <<1, 3>>} /\ m \in {"count", "null"}
CNext == Next /\ UNCHANGED <<n, m>> /\ (IF out = "run" THEN Ma!MStep(tab, w, m, n) ELSE UNCHANGED count)
CSpec == CInit /\ [][CNext]_cvars
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Counted == count = 5 + (IF m = "null" THEN 0 ELSE Sum([i \in 1..Len(ran) |-> n[ran[i][1]]]))
\* of an accepted script all production nodes count
CountsTree == out = "accept" /\ m = "count" =>
  count = 5 + Sum([i \in 1..Len(tree) |-> IF tree[i][3][1] = "n" THEN n[tree[i][3][2]] ELSE 0])
NotStuck == out \in {"start", "run"} => ENABLED CNext
=============================================================================
