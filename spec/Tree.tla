-------------------------------- MODULE Tree --------------------------------
(* The forest a henriks_parsing_project::tree::Tree stands for. A node is known by its handle only; handles are
   opaque values that are never given out twice. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
SX == INSTANCE SequencesExt

VARIABLES f,      \* the present nodes: handle -> [d: data, up: handle of the parent or None, kids: Seq(handle)]
          used    \* every handle ever given out

tvars == <<f, used>>

None == <<>>
Live == DOMAIN f

-----------------------------------------------------------------------------
\* all nodes reachable from h through children (without h), level by level: p = <<found, the last level>>
Deeper(g, p) == IF p[2] = <<>> THEN p
                ELSE CHOOSE q \in {<<p[1] \o K, K>> : K \in {SX!FlattenSeq([i \in 1..Len(p[2]) |-> g[p[2][i]].kids])}} : TRUE
BelowSeq(g, h) == SX!FoldLeft(LAMBDA p, k : Deeper(g, p), <<<<>>, <<h>>>>, [k \in 1..Cardinality(DOMAIN g) |-> k])[1]
Below(g, h) == CHOOSE S \in {{q[i] : i \in 1..Len(q)} : q \in {BelowSeq(g, h)}} : TRUE

Without(s, h) == SelectSeq(s, LAMBDA x : x # h)
Restrict(g, S) == [x \in S |-> g[x]]

TreeInit == f = <<>> /\ used = {}

\* add_node: below a present node or as a root; the handle h is any handle not given out before
Add(p, d, h) ==
  /\ p \in {None} \cup Live
  /\ h # None /\ h \notin used
  /\ used' = used \cup {h}
  /\ f' = LET g == IF p = None THEN f ELSE [f EXCEPT ![p].kids = Append(@, h)]
          IN  g @@ (h :> [d |-> d, up |-> p, kids |-> <<>>])
AddRefused(p) == p # None /\ p \notin Live /\ UNCHANGED tvars

\* remove_branch: the node and everything below it goes, everything else stays
Remove(h) ==
  /\ h \in Live
  /\ \E gone \in {{h} \cup Below(f, h)} :
     LET g == IF f[h].up = None THEN f ELSE [f EXCEPT ![f[h].up].kids = Without(@, h)]
     IN  f' = Restrict(g, Live \ gone)
  /\ UNCHANGED used
RemoveRefused(h) == h \notin Live /\ UNCHANGED tvars

\* get_node_mut
SetData(h, d) == h \in Live /\ f' = [f EXCEPT ![h].d = d] /\ UNCHANGED used
SetRefused(h) == h \notin Live /\ UNCHANGED tvars

-----------------------------------------------------------------------------
\* What the lookups answer
Kids(h) == IF h \in Live THEN f[h].kids ELSE <<>>
Descendants(h) == IF h \in Live THEN Below(f, h) ELSE {}
RECURSIVE Walk(_, _)
\* the node found from h by following child positions p (counted from 0), None if there is none
Walk(h, p) == IF p = <<>> THEN h
              ELSE IF Head(p) + 1 > Len(f[h].kids) THEN None
              ELSE Walk(f[h].kids[Head(p) + 1], Tail(p))

-----------------------------------------------------------------------------
\* Properties of every behaviour
ForestOK ==
  \A h \in Live :
    /\ h \in used /\ h # None
    /\ \A i, j \in 1..Len(f[h].kids) : f[h].kids[i] = f[h].kids[j] => i = j
    /\ \A i \in 1..Len(f[h].kids) : f[h].kids[i] \in Live /\ f[f[h].kids[i]].up = h
    /\ f[h].up # None => f[h].up \in Live /\ \E i \in 1..Len(f[f[h].up].kids) : f[f[h].up].kids[i] = h
    /\ h \notin Below(f, h)

\* a handle denotes one node until that node goes, and nothing afterwards
HandlesStable ==
  [][ /\ used \subseteq used'
      /\ (used \ Live) \cap DOMAIN f' = {}
      /\ \A h \in Live \cap DOMAIN f' : f'[h].up = f[h].up ]_tvars
\* a node only goes together with the whole branch it is in; the others keep their order
OnlyBranchesGo ==
  [][ LET gone == Live \ DOMAIN f' IN
      /\ \A h \in gone : Below(f, h) \subseteq gone
      /\ Cardinality({h \in gone : f[h].up \notin gone}) <= 1
      /\ \A h \in Live \cap DOMAIN f' :
           LET kept == SelectSeq(f[h].kids, LAMBDA k : k \notin gone)
           IN  Len(f'[h].kids) >= Len(kept) /\ SubSeq(f'[h].kids, 1, Len(kept)) = kept ]_tvars
=============================================================================
