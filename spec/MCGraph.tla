------------------------------- MODULE MCGraph ------------------------------
(* All graphs with few nodes and edges, and the linked edge lists of src/simple_graph.rs followed alongside: the lists
   (imp) must show exactly what the abstract graph says after every operation. *)
EXTENDS Graph, TLC
CONSTANTS MaxNodes, MaxEdges, Numbers
VARIABLES imp     \* per graph: [first: Seq(edge or 0), edges: Seq([target, id, next])]
mvars == <<gs, imp>>

IEmpty == [first |-> <<>>, edges |-> <<>>]
RECURSIVE Chain(_, _)
Chain(g, e) == IF e = 0 THEN <<>> ELSE <<e>> \o Chain(g, g.edges[e].next)
Lst(g, n) == Chain(g, g.first[n + 1])
IAddNode(g) == [g EXCEPT !.first = Append(@, 0)]
IAddEdge(g, s, t) ==
  LET last == g.first[s + 1]
      id == IF last = 0 THEN 0 ELSE g.edges[last].id + 1
  IN [first |-> [g.first EXCEPT ![s + 1] = Len(g.edges) + 1],
      edges |-> Append(g.edges, [target |-> t, id |-> id, next |-> last])]
\* walk to the last edge with a greater number
RECURSIVE Before(_, _, _, _)
Before(g, prev, e, id) == IF e = 0 THEN prev ELSE IF g.edges[e].id > id THEN Before(g, e, g.edges[e].next, id) ELSE prev
ITry(g, s, t, id) ==
  IF \E k \in 1..Len(Lst(g, s)) : g.edges[Lst(g, s)[k]].id = id THEN g
  ELSE LET p == Before(g, 0, g.first[s + 1], id)
           nx == IF p = 0 THEN g.first[s + 1] ELSE g.edges[p].next
           new == Len(g.edges) + 1
           e2 == Append(g.edges, [target |-> t, id |-> id, next |-> nx])
       IN IF p = 0 THEN [first |-> [g.first EXCEPT ![s + 1] = new], edges |-> e2]
          ELSE [g EXCEPT !.edges = [e2 EXCEPT ![p].next = new]]
IMerge(g, o, s, t) ==
  LET no == Len(g.first)  eo == Len(g.edges)
      sh(x) == IF x = 0 THEN 0 ELSE x + eo
      both == [first |-> g.first \o [k \in 1..Len(o.first) |-> sh(o.first[k])],
               edges |-> g.edges \o [k \in 1..Len(o.edges) |->
                            [target |-> o.edges[k].target + no, id |-> o.edges[k].id, next |-> sh(o.edges[k].next)]]]
  IN IAddEdge(both, s, t + no)

Nodes(x) == {n \in 0..MaxNodes : IsNode(gs[x], n)}
Total == Size(gs[1]) + Size(gs[2])
TotalE == Len(imp[1].edges) + Len(imp[2].edges)
MCInit == GraphInit /\ imp = <<IEmpty, IEmpty>>
MCNext == \E x \in 1..2 :
  \/ Total < MaxNodes /\ AddNode(x, Total, Size(gs[x])) /\ imp' = [imp EXCEPT ![x] = IAddNode(@)]
  \/ TotalE < MaxEdges /\ \E s, t \in Nodes(x) :
       \/ AddEdge(x, s, t) /\ imp' = [imp EXCEPT ![x] = IAddEdge(@, s, t)]
       \/ \E id \in Numbers : (AddNumbered(x, s, t, id) \/ NumberInUse(x, s, t, id)) /\ imp' = [imp EXCEPT ![x] = ITry(@, s, t, id)]
  \/ TotalE < MaxEdges /\ \E s \in Nodes(x), t \in Nodes(3 - x) :
       Merge(x, 3 - x, s, t) /\ imp' = [imp EXCEPT ![x] = IMerge(@, imp[3 - x], s, t), ![3 - x] = IEmpty]
MCSpec == MCInit /\ [][MCNext]_mvars
Implements == \A x \in 1..2 : \A n \in Nodes(x) :
                LET l == Lst(imp[x], n) IN
                [k \in 1..Len(l) |-> <<imp[x].edges[l[k]].id, imp[x].edges[l[k]].target>>] = Edges(gs[x], n)
PathsOK == \A x \in 1..2 : \A n \in Nodes(x) : \A a, b \in Numbers :
             FindPath(gs[x], n, <<a, b>>) = (IF Find(gs[x], n, a) = <<>> THEN <<>> ELSE Find(gs[x], Find(gs[x], n, a)[1], b))
=============================================================================
