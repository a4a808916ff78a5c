-------------------------------- MODULE Graph -------------------------------
(* The numbered graph behind simple_graph::Graph: nodes are numbered from 0 in order of addition and carry data; every
   node has a finite map from edge numbers to target nodes. Two graph objects, as one can be merged into the other. *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLE gs      \* <<graph 0, graph 1>>, a graph is [data: Seq(data), out: Seq(edge number -> node)]

Empty == [data |-> <<>>, out |-> <<>>]
Size(g) == Len(g.data)
IsNode(g, n) == n < Size(g)
Out(g, n) == g.out[n + 1]
Nums(g, n) == DOMAIN Out(g, n)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
NextNum(g, n) == IF Nums(g, n) = {} THEN 0 ELSE Max(Nums(g, n)) + 1
With(g, n, id, t) == [g EXCEPT !.out[n + 1] = [k \in DOMAIN @ \cup {id} |-> IF k = id THEN t ELSE @[k]]]

GraphInit == gs = <<Empty, Empty>>

AddNode(x, d, ix) == /\ ix = Size(gs[x])
                     /\ gs' = [gs EXCEPT ![x] = [data |-> Append(@.data, d), out |-> Append(@.out, <<>>)]]
AddEdge(x, s, t) == /\ IsNode(gs[x], s) /\ IsNode(gs[x], t)
                    /\ gs' = [gs EXCEPT ![x] = With(@, s, NextNum(@, s), t)]
AddNumbered(x, s, t, id) == /\ IsNode(gs[x], s) /\ IsNode(gs[x], t) /\ id \notin Nums(gs[x], s)
                            /\ gs' = [gs EXCEPT ![x] = With(@, s, id, t)]
NumberInUse(x, s, t, id) == IsNode(gs[x], s) /\ id \in Nums(gs[x], s) /\ UNCHANGED gs
\* everything of the other graph is taken over, and one edge leads from s to its node t
Merge(x, y, s, t) ==
  /\ x # y /\ IsNode(gs[x], s) /\ IsNode(gs[y], t)
  /\ LET n == Size(gs[x])
         moved == [k \in 1..Size(gs[y]) |-> [id \in DOMAIN gs[y].out[k] |-> gs[y].out[k][id] + n]]
         both == [data |-> gs[x].data \o gs[y].data, out |-> gs[x].out \o moved]
     IN gs' = [gs EXCEPT ![x] = With(both, s, NextNum(both, s), n + t), ![y] = Empty]

-----------------------------------------------------------------------------
\* lookups
Find(g, n, id) == IF id \in Nums(g, n) THEN <<Out(g, n)[id]>> ELSE <<>>
RECURSIVE FindPath(_, _, _)
FindPath(g, n, p) == IF p = <<>> THEN <<n>>
                     ELSE IF Head(p) \in Nums(g, n) THEN FindPath(g, Out(g, n)[Head(p)], Tail(p)) ELSE <<>>
DataOf(g, found) == IF found = <<>> THEN <<>> ELSE <<g.data[found[1] + 1]>>
RECURSIVE Descending(_)
Descending(S) == IF S = {} THEN <<>> ELSE <<Max(S)>> \o Descending(S \ {Max(S)})
Edges(g, n) == LET d == Descending(Nums(g, n)) IN [k \in 1..Len(d) |-> <<d[k], Out(g, n)[d[k]]>>]
Successors(g, n) == LET e == Edges(g, n) IN [k \in 1..Len(e) |-> e[k][2]]

-----------------------------------------------------------------------------
TypeOK == \A x \in 1..2 : /\ Len(gs[x].out) = Size(gs[x])
                          /\ \A n \in 1..Size(gs[x]) : \A id \in DOMAIN gs[x].out[n] : IsNode(gs[x], gs[x].out[n][id])
StrictlyDescending == \A x \in 1..2 : \A n \in 1..Size(gs[x]) :
                        LET e == Edges(gs[x], n - 1) IN \A k \in 1..(Len(e) - 1) : e[k][1] > e[k + 1][1]
\* edges keep their numbers and targets, nodes their data
EdgesKeepNumbers ==
  [][ \A x \in 1..2 : Size(gs'[x]) >= Size(gs[x]) =>
        \A n \in 1..Size(gs[x]) :
          /\ gs'[x].data[n] = gs[x].data[n]
          /\ \A id \in DOMAIN gs[x].out[n] : id \in DOMAIN gs'[x].out[n] /\ gs'[x].out[n][id] = gs[x].out[n][id] ]_gs
=============================================================================
