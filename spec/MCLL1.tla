-------------------------------- MODULE MCLL1 -------------------------------
(* All small grammars. The sets are computed by applying one inclusion at a time in any order (chaotic iteration), as an
   implementation may; whatever the order, the result is the one LL1 defines. FIRST is also compared with what leftmost
   derivations show, FOLLOW with the adjacent symbols of sentential forms. *)
EXTENDS LL1, FiniteSets, SequencesExt, FiniteSetsExt, Randomization, TLC
CONSTANTS Terms, NProd, MaxAlts, MaxLen, Sample
TermsAE == {<<97>>, <<>>}
TermsAB == {<<97>>, <<98>>}
TermsABE == {<<97>>, <<98>>, <<>>}
VARIABLES g, N, F, W, phase
mvars == <<g, N, F, W, phase>>
Syms == {<<"t", t>> : t \in Terms} \cup {<<"n", k>> : k \in 1..NProd}
Alternatives == UNION {[1..n -> Syms] : n \in 0..MaxLen}
\* the order of alternatives plays no part, so a set of them is enough
FewAlts == IF MaxAlts = 1 THEN {{a} : a \in Alternatives} ELSE {{a, b} : a \in Alternatives, b \in Alternatives}
DefinitionsOf == {SetToSeq(d) : d \in FewAlts}
Chosen(D) == IF Sample = 0 THEN [1..NProd -> D] ELSE RandomSubset(Sample, [1..NProd -> D])
Grammars == {[alts |-> a, def |-> [k \in 1..NProd |-> TRUE], start |-> 1] : a \in Chosen(DefinitionsOf)}
Init == /\ g \in Grammars /\ NoLeftRecursion(g, Nullable(g))
        /\ N = {} /\ F = [k \in 1..NProd |-> {}] /\ W = [k \in 1..NProd |-> IF k = 1 THEN {End} ELSE {}] /\ phase = 1
ApplyNull(k) == \E a \in AltsOf(g, k) : NullSeq(N, a) /\ k \notin N /\ N' = N \cup {k} /\ UNCHANGED <<g, F, W, phase>>
ApplyFirst(k) == \E a \in AltsOf(g, k) : ~(FirstSeq(N, F, a) \subseteq F[k]) /\ F' = [F EXCEPT ![k] = @ \cup FirstSeq(N, F, a)] /\ UNCHANGED <<g, N, W, phase>>
ApplyFollow(p) == \E o \in Occurrences(g, p) : ~(FollowAt(g, N, F, W, o) \subseteq W[p]) /\ W' = [W EXCEPT ![p] = @ \cup FollowAt(g, N, F, W, o)] /\ UNCHANGED <<g, N, F, phase>>
Next == \/ phase = 1 /\ \E k \in 1..NProd : ApplyNull(k) \/ ApplyFirst(k)
        \/ phase = 1 /\ ~ENABLED (\E k \in 1..NProd : ApplyNull(k) \/ ApplyFirst(k)) /\ phase' = 2 /\ UNCHANGED <<g, N, F, W>>
        \/ phase = 2 /\ \E k \in 1..NProd : ApplyFollow(k)
        \/ phase = 2 /\ ~ENABLED (\E k \in 1..NProd : ApplyFollow(k)) /\ phase' = 3 /\ UNCHANGED <<g, N, F, W>>
MCSpec == Init /\ [][Next]_mvars

S == Sets(g)
AnyOrder == phase = 3 => N = S.N /\ F = S.F /\ W = S.W

\* leftmost derivations, as long as no terminal text has come out; finite because g is not left recursive
Rewrites(q) == IF q = <<>> \/ (IsT(q[1]) /\ ~EmptyT(q[1])) THEN {}
               ELSE IF EmptyT(q[1]) THEN {Tail(q)}
               ELSE {a \o Tail(q) : a \in AltsOf(g, q[1][2])}
RECURSIVE Forms(_)
Forms(Q) == LET R == Q \cup UNION {Rewrites(q) : q \in Q} IN IF R = Q THEN Q ELSE Forms(R)
ByDerivation(q) == {IF r = <<>> THEN Eps ELSE r[1][2][1] : r \in {r \in Forms({q}) : r = <<>> \/ (IsT(r[1]) /\ ~EmptyT(r[1]))}}
FirstIsDerivation == phase = 1 /\ N = {} => \A k \in 1..NProd : ByDerivation(<<<<"n", k>>>>) = FirstOf(S, <<<<"n", k>>>>)

\* what stands behind production p in forms derived from the start: the rest q of an alternative, then what is behind the
\* production that alternative belongs to. Behinds collects such rests, closed under "the rest can be empty".
RECURSIVE Owners(_)
Owners(P) == LET R == P \cup UNION {{o[1] : o \in {o \in Occurrences(g, p) : Eps \in ByDerivation(Rest(g, o))}} : p \in P} IN IF R = P THEN P ELSE Owners(R)
FollowIsAdjacency ==
  phase = 1 /\ N = {} =>
    \A p \in 1..NProd :
      LET os == Owners({p}) IN
      S.W[p] = UNION {UNION {ByDerivation(Rest(g, o)) \ {Eps} : o \in Occurrences(g, q)} : q \in os} \cup (IF 1 \in os THEN {End} ELSE {})

\* predicting is exact: on lookahead x production k must be rewritten with a predicted alternative
SteuerIsUnion == phase = 1 /\ N = {} => \A k \in 1..NProd : Steuer(S, k) = UNION {Applies(S, k, a) : a \in AltsOf(g, k)}
=============================================================================
