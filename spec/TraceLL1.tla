------------------------------ MODULE TraceLL1 ------------------------------
(* Recorded table constructions. A case has a grammar and, for several runs, what the stages returned:
   first -> partial* -> follow -> steuer -> table -> end, cut short by the first stage that fails. Which of it is judged
   depends on the property (ASPECT). A logged set is <<present, sequence of its members>>. *)
EXTENDS LL1, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT
VARIABLES c, i,
          S,      \* the sets of the grammar, see LL1
          ok,     \* [an: analysable, us: usable]
          got     \* stages of this run that succeeded
tvars == <<c, i, S, ok, got>>
G == Cases[c].g
Steps == Cases[c].steps
E == Steps[i]
Init == c \in 1..Len(Cases) /\ i = 0 /\ S = <<>> /\ ok = <<>> /\ got = {}
Analyse == /\ i = 0 /\ S' = Sets(G) /\ ok' = [an |-> Analysable(G, S'), us |-> Usable(G, S')]
           /\ i' = 1 /\ UNCHANGED <<c, got>>
Ev(e) == i \in 1..Len(Steps) /\ E.ev = e /\ i' = i + 1 /\ got' = (IF E.ok THEN got \cup {e} ELSE got) /\ UNCHANGED <<c, S, ok>>
Members(x) == {x[2][j] : j \in 1..Len(x[2])}
Once(x) == \A a \in 1..Len(x[2]), b \in 1..Len(x[2]) : x[2][a] = x[2][b] => a = b
\* exactly the defined productions have a set, and it is the right one
Exactly(sets, size, R(_)) == /\ size = Cardinality({k \in Prods(G) : G.def[k]})
                             /\ \A k \in Prods(G) : sets[k][1] = G.def[k] /\ (G.def[k] => Once(sets[k]) /\ Members(sets[k]) = R(k))

FirstSet(k) == S.F[k] \cup (IF k \in S.N THEN {Eps} ELSE {})
TFirst == Ev("first") /\ (Aspect = "C05" /\ ok.an => E.ok /\ Exactly(E.sets, E.size, FirstSet))
TPartial == Ev("partial") /\ (Aspect = "C05" /\ ok.an => E.ok /\ {E.set[j] : j \in 1..Len(E.set)} = FirstOf(S, E.q))
FollowSet(k) == S.W[k]
TFollow == Ev("follow") /\ (Aspect = "C06" /\ ok.an => E.ok /\ Exactly(E.sets, E.size, FollowSet))
SteuerSet(k) == Steuer(S, k)
TSteuer == Ev("steuer") /\ (Aspect = "C07" /\ ok.us => E.ok /\ Exactly(E.sets, E.size, SteuerSet))
\* the table of production k, as a set of <<lookahead, alternative>>
Table(k) == {<<x, CHOOSE a \in Predicted(G, S, k, x) : TRUE>> : x \in Steuer(S, k)}
RealConflict == IF E.conflict = <<>> THEN FALSE
                ELSE /\ E.conflict[1] \in Prods(G)
                     /\ E.conflict[2] \in Conflicts(G, S, E.conflict[1]) \/ (E.conflict[2] = 35 /\ End \in Conflicts(G, S, E.conflict[1]))
TTable == Ev("table") /\ (Aspect = "C07" => IF ok.us THEN E.ok /\ Exactly(E.sets, E.size, Table)
                                            ELSE ~E.ok /\ (ok.an \/ E.conflict # <<>> => RealConflict))
\* the end of a run: how far it must have come
Stages == {"first", "follow", "steuer", "table"}
TEnd == /\ i \in 1..Len(Steps) /\ E.ev = "end"
        /\ Aspect = "C05" /\ ok.an => "first" \in got
        /\ Aspect = "C06" /\ ok.an => "follow" \in got
        /\ Aspect = "C07" => (IF ok.us THEN Stages \subseteq got ELSE ~(Stages \subseteq got))
        /\ i' = i + 1 /\ got' = {} /\ UNCHANGED <<c, S, ok>>
Finish == i = Len(Steps) + 1 /\ Cases[c].end = "ok" /\ PrintT(<<"OK", c>>) /\ i' = i + 1 /\ UNCHANGED <<c, S, ok, got>>
Next == Analyse \/ TFirst \/ TPartial \/ TFollow \/ TSteuer \/ TTable \/ TEnd \/ Finish
Spec == Init /\ [][Next]_tvars
=============================================================================
