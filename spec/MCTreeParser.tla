----------------------------- MODULE MCTreeParser ---------------------------
(* Instructions that alter the tree on small grammars and all short scripts: the tree stays a forest with stable handles,
   productions being matched stay in it, and the parse ends as it would without instructions. *)
EXTENDS TreeParser, FiniteSets, TLC
CONSTANTS MaxScript, Alphabet
VARIABLES g, tab, w, inst
mvars == <<pos, stack, made, out, f, used, todo, cur, kept, g, tab, w, inst>>
A == <<"t", <<97>>>>
B == <<"t", <<98>>>>
P(k) == <<"n", k>>
Gr(alts) == [alts |-> alts, def |-> [k \in 1..Len(alts) |-> TRUE], start |-> 1]
Grammars == {Gr(<< <<<<A, P(1)>>, <<>>>> >>),
             Gr(<< <<<<P(2), P(1)>>, <<>>>>, <<<<A>>, <<B, P(2)>>>> >>),
             Gr(<< <<<<P(2), P(3)>>>>, <<<<A>>, <<>>>>, <<<<B, P(2)>>, <<>>>> >>)}
I(who, n, what, d) == [who |-> who, n |-> n, what |-> what, d |-> d]
Ins == {I("cur", 0, "set", <<120>>), I("cur", 0, "rm", <<>>), I("kid", 0, "rm", <<>>), I("kid", 1, "rm", <<>>), I("cur", 0, "keep", <<>>), I("kid", 0, "keep", <<>>),
        I("kept", 0, "rm", <<>>), I("kept", 0, "add", <<121>>), I("cur", 0, "addkeep", <<122>>), I("top", 0, "addkeep", <<123>>)}
Programs == UNION {[1..n -> Ins] : n \in 0..2}
Init == /\ g \in Grammars /\ w \in UNION {[1..n -> Alphabet] : n \in 0..MaxScript}
        /\ inst \in [1..Len(g.alts) -> {<<>>}]
        /\ tab = <<>> /\ EInit /\ pos = 0 /\ stack = <<Item(P(1), 0)>> /\ made = 0 /\ out = "start"
Setup == /\ out = "start" /\ tab' = TableOf(g, Sets(g)) /\ out' = "run"
         /\ inst' \in {[k \in 1..Len(g.alts) |-> IF k = 1 THEN p ELSE IF k = 2 THEN q ELSE <<>>] : p \in Programs, q \in {<<>>} \cup {<<i>> : i \in Ins}}
         /\ UNCHANGED <<pos, stack, made, g, w>> /\ UNCHANGED evars
Next == Setup \/ (out = "run" /\ ENext(tab, w, inst) /\ UNCHANGED <<g, tab, w, inst>>)
MCSpec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
TreeOK == Tr!ForestOK
Stable == Tr!HandlesStable
Branches == Tr!OnlyBranchesGo
Moves == out \in {"start", "run"} => ENABLED Next
\* the verdict of the first grammar: any number of a
Verdict == (out = "accept" /\ Len(g.alts) = 1) => \A i \in 1..Len(w) : w[i] = 97
=============================================================================
