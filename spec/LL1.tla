--------------------------------- MODULE LL1 --------------------------------
(* LL(1) analysis of a grammar g = [alts: for each production its alternatives, def: whether it is defined at all, start].
   A symbol is <<"t", text>> or <<"n", production>>; an alternative is a sequence of symbols. Everything is the least
   solution of its defining inclusions. Only the first character of a terminal matters here. *)
EXTENDS Integers, Sequences, TLC
Eps == 0 - 1     \* "can be empty" in a FIRST set
End == 0 - 2     \* the end of input as lookahead
Prods(g) == 1..Len(g.alts)
AltsOf(g, k) == {g.alts[k][j] : j \in 1..Len(g.alts[k])}
IsT(s) == s[1] = "t"
EmptyT(s) == IsT(s) /\ s[2] = <<>>

\* the productions that derive the empty text
NullSym(N, s) == IF IsT(s) THEN s[2] = <<>> ELSE s[2] \in N
NullSeq(N, q) == \A i \in 1..Len(q) : NullSym(N, q[i])
RECURSIVE NullFrom(_, _)
NullFrom(g, N) == LET M == {k \in Prods(g) : \E a \in AltsOf(g, k) : NullSeq(N, a)} IN IF M = N THEN N ELSE NullFrom(g, M)
Nullable(g) == NullFrom(g, {})

\* the characters derivations can start with
FirstSym(F, s) == IF IsT(s) THEN (IF s[2] = <<>> THEN {} ELSE {s[2][1]}) ELSE F[s[2]]
FirstSeq(N, F, q) == UNION {FirstSym(F, q[i]) : i \in {i \in 1..Len(q) : \A j \in 1..(i - 1) : NullSym(N, q[j])}}
RECURSIVE FirstFrom(_, _, _)
FirstFrom(g, N, F) == LET H == [k \in Prods(g) |-> UNION {FirstSeq(N, F, a) : a \in AltsOf(g, k)}] IN
                      IF H = F THEN F ELSE FirstFrom(g, N, H)
First(g, N) == FirstFrom(g, N, [k \in Prods(g) |-> {}])

\* the lookaheads that can come after a production
Occurrences(g, p) == UNION {UNION {{<<k, j, i>> : i \in {i \in 1..Len(g.alts[k][j]) : g.alts[k][j][i] = <<"n", p>>}}
                                   : j \in 1..Len(g.alts[k])} : k \in Prods(g)}
Rest(g, o) == LET a == g.alts[o[1]][o[2]] IN SubSeq(a, o[3] + 1, Len(a))
FollowAt(g, N, F, W, o) == FirstSeq(N, F, Rest(g, o)) \cup (IF NullSeq(N, Rest(g, o)) THEN W[o[1]] ELSE {})
RECURSIVE FollowFrom(_, _, _, _, _)
FollowFrom(g, N, F, occ, W) == LET V == [p \in Prods(g) |-> W[p] \cup UNION {FollowAt(g, N, F, W, o) : o \in occ[p]}] IN
                               IF V = W THEN W ELSE FollowFrom(g, N, F, occ, V)
Follow(g, N, F) == FollowFrom(g, N, F, TLCEval([p \in Prods(g) |-> Occurrences(g, p)]), [p \in Prods(g) |-> IF p = g.start THEN {End} ELSE {}])

Sets(g) == LET N == Nullable(g)  F == First(g, N) IN [N |-> N, F |-> F, W |-> Follow(g, N, F)]
FirstOf(S, q) == FirstSeq(S.N, S.F, q) \cup (IF NullSeq(S.N, q) THEN {Eps} ELSE {})

\* the lookaheads on which an alternative a of production k applies
Applies(S, k, a) == FirstSeq(S.N, S.F, a) \cup (IF NullSeq(S.N, a) THEN S.W[k] ELSE {})
Steuer(S, k) == S.F[k] \cup (IF k \in S.N THEN S.W[k] ELSE {})
Conflicts(g, S, k) == UNION {UNION {Applies(S, k, g.alts[k][i]) \cap Applies(S, k, g.alts[k][j]) : j \in 1..(i - 1)} : i \in 1..Len(g.alts[k])}

\* every production that is used (by name in an alternative, or as start) is defined
UsedBy(g, k) == UNION {{a[i][2] : i \in {i \in 1..Len(a) : ~IsT(a[i])}} : a \in AltsOf(g, k)}
AllDefined(g) == g.def[g.start] /\ \A k \in Prods(g) : g.def[k] => \A p \in UsedBy(g, k) : g.def[p]
\* p is a left corner of k: an alternative of k starts with p after symbols that can be empty
Corners(g, N, k) == UNION {{a[i][2] : i \in {i \in 1..Len(a) : ~IsT(a[i]) /\ \A j \in 1..(i - 1) : NullSym(N, a[j])}} : a \in AltsOf(g, k)}
RECURSIVE ReachFrom(_, _, _)
ReachFrom(g, N, R) == LET Q == R \cup UNION {Corners(g, N, k) : k \in R} IN IF Q = R THEN R ELSE ReachFrom(g, N, Q)
LeftRecursive(g, N, k) == k \in ReachFrom(g, N, Corners(g, N, k))
NoLeftRecursion(g, N) == \A k \in Prods(g) : ~LeftRecursive(g, N, k)
Analysable(g, S) == AllDefined(g) /\ NoLeftRecursion(g, S.N)
Usable(g, S) == Analysable(g, S) /\ \A k \in Prods(g) : Conflicts(g, S, k) = {}
\* the alternatives that apply on lookahead x (at most one in a usable grammar)
Predicted(g, S, k, x) == {g.alts[k][j] : j \in {j \in 1..Len(g.alts[k]) : x \in Applies(S, k, g.alts[k][j])}}

\* productions that derive some text at all
RECURSIVE ProductiveFrom(_, _)
ProductiveFrom(g, P) == LET Q == {k \in Prods(g) : \E a \in AltsOf(g, k) : \A i \in 1..Len(a) : IsT(a[i]) \/ a[i][2] \in P} IN
                        IF Q = P THEN P ELSE ProductiveFrom(g, Q)
AllProductive(g) == ProductiveFrom(g, {}) = Prods(g)
=============================================================================
