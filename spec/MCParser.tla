------------------------------- MODULE MCParser -----------------------------
(* All small usable grammars on all short scripts: the parser accepts exactly the scripts that are derivable, its tree is
   a derivation tree of the script, it rejects at the end of the longest prefix some sentence starts with, and it stops.
   Derivability is defined here on spans of the script, without FIRST, FOLLOW or lookaheads. *)
EXTENDS Parser, FiniteSets, FiniteSetsExt, Randomization, TLC
CONSTANTS Terms, NProd, MaxAlts, MaxSyms, MaxScript, Alphabet, Sample
TermsAB == {<<97>>, <<98>>}
TermsAE == {<<97>>, <<>>}
TermsABC == {<<97>>, <<98>>, <<97, 98>>, <<98, 98>>}
VARIABLES g, tab, w, tree, ran
mvars == <<pos, stack, made, out, g, tab, w, tree, ran>>
Syms == {<<"t", t>> : t \in Terms} \cup {<<"n", k>> : k \in 1..NProd}
Alternatives == UNION {[1..n -> Syms] : n \in 0..MaxSyms}
DefinitionsOf == IF MaxAlts = 1 THEN {<<a>> : a \in Alternatives} ELSE {SetToSeq({a, b}) : a \in Alternatives, b \in Alternatives}
Chosen == IF Sample = 0 THEN [1..NProd -> DefinitionsOf] ELSE RandomSubset(Sample, [1..NProd -> DefinitionsOf])
Grammars == {[alts |-> a, def |-> [k \in 1..NProd |-> TRUE], start |-> 1] : a \in Chosen}
Good == {x \in Grammars : Usable(x, Sets(x))}
Scripts == UNION {[1..n -> Alphabet] : n \in 0..MaxScript}
Init == /\ g \in Good /\ w \in Scripts /\ tab = <<>> /\ tree = <<>> /\ ran = <<>>
        /\ pos = 0 /\ stack = <<Item(<<"n", 1>>, 0)>> /\ made = 0 /\ out = "start"
Start == out = "start" /\ tab' = TableOf(g, Sets(g)) /\ out' = "run" /\ UNCHANGED <<pos, stack, made, g, w, tree, ran>>
Grow == tree' = Append(tree, NewNode \o <<Top.sym>>) /\ UNCHANGED ran
Next == Start \/ /\ UNCHANGED <<g, tab, w>>
                 /\ \/ Predict(tab, w) /\ Grow
                    \/ Match(w) /\ Grow
                    \/ Complete /\ ran' = Append(ran, <<Top.sym[2], Top.node, made>>) /\ UNCHANGED tree
                    \/ (Accept(w) \/ Reject(tab, w)) /\ UNCHANGED <<tree, ran>>
MCSpec == Init /\ [][Next]_mvars /\ WF_mvars(Next)

\* which spans of the script sequences and productions derive; D is a set of <<production, from, to>>
RECURSIVE Ends(_, _, _, _)
Ends(D, q, i, m) == IF m = 0 THEN {i} ELSE
  UNION {IF q[m][1] = "t" THEN (IF j + Len(q[m][2]) <= Len(w) /\ SubSeq(w, j + 1, j + Len(q[m][2])) = q[m][2] THEN {j + Len(q[m][2])} ELSE {})
         ELSE {d[3] : d \in {d \in D : d[1] = q[m][2] /\ d[2] = j}} : j \in Ends(D, q, i, m - 1)}
RECURSIVE SpansFrom(_)
SpansFrom(D) == LET B == UNION {UNION {UNION {{<<k, i, e>> : e \in Ends(D, a, i, Len(a))} : a \in AltsOf(g, k)} : i \in 0..Len(w)} : k \in 1..NProd}
                IN IF B = D THEN D ELSE SpansFrom(B)
Spans == SpansFrom({})
Derivable == <<1, 0, Len(w)>> \in Spans
\* <<k, i>>: production k derives something that starts with w[i+1..p] (all productions derive something)
BeginsText(t, i, p) == p - i <= Len(t) /\ SubSeq(w, i + 1, p) = SubSeq(t, 1, p - i)
RECURSIVE StartsFrom(_, _, _)
StartsFrom(D, p, V) ==
  LET B == {<<k, i>> \in (1..NProd) \X (0..p) :
              \/ i = p
              \/ \E a \in AltsOf(g, k) : \E m \in 1..Len(a) : \E j \in Ends(D, a, i, m - 1) :
                   j <= p /\ (j = p \/ IF a[m][1] = "t" THEN BeginsText(a[m][2], j, p) ELSE <<a[m][2], j>> \in V)
              \/ \E a \in AltsOf(g, k) : \E j \in Ends(D, a, i, Len(a)) : j = p}
  IN IF B = V THEN V ELSE StartsFrom(D, p, B)
Viable(p) == LET D == Spans IN <<1, 0>> \in StartsFrom(D, p, {})
LongestViable == CHOOSE p \in 0..Len(w) : Viable(p) /\ (p < Len(w) => ~Viable(p + 1))

AcceptsExactly == out \in {"accept", "reject"} => ((out = "accept") <=> Derivable)
RejectsThere == out = "reject" /\ AllProductive(g) => pos = LongestViable
\* the children of node x, and that they are an alternative of its production
Kids(x) == {y \in (x + 1)..Len(tree) : tree[y][1] = tree[x][1] + 1 /\ \A z \in (x + 1)..(y - 1) : tree[z][1] > tree[x][1]}
KidSyms(x) == LET ks == SetToSortSeq(Kids(x), <) IN [i \in 1..Len(ks) |-> tree[ks[i]][3]]
IsDerivationTree == out = "accept" => /\ tree[1] = <<0, <<>>, <<"n", 1>>>> /\ \A x \in 2..Len(tree) : tree[x][1] > 0
                                      /\ \A x \in 1..Len(tree) : IF tree[x][3][1] = "n" THEN KidSyms(x) \in AltsOf(g, tree[x][3][2]) /\ tree[x][2] = <<>> ELSE Kids(x) = {}
LeavesAreScript == out = "accept" => FoldLeft(LAMBDA s, n : s \o n[2], <<>>, tree) = w
\* every production node runs once, after all that is below it and before anything right of it
RunsOnce == out = "accept" => {r[2] : r \in ToSet(ran)} = {x \in 1..Len(tree) : tree[x][3][1] = "n"} /\ Len(ran) = Cardinality({x \in 1..Len(tree) : tree[x][3][1] = "n"})
LastBelow(x) == Max({x} \cup {y \in x..Len(tree) : \A z \in (x + 1)..y : tree[z][1] > tree[x][1]})
RunsInTime == out = "accept" => \A i \in 1..Len(ran) : ran[i][3] = LastBelow(ran[i][2]) /\ tree[ran[i][2]][3][2] = ran[i][1]
Moves == out \in {"start", "run"} => ENABLED Next
Stops == <>(out \in {"accept", "reject"})
=============================================================================
