----------------------------- MODULE TraceGraph -----------------------------
(* Recorded executions of simple_graph::Graph against Graph. Step arguments: a[1] the graph object (0 or 1). *)
EXTENDS Graph, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
E == Cases[c].steps[i]
A(k) == E.a[k]
X == A(1) + 1
G == gs[X]
Ev(op) == i <= Len(Cases[c].steps) /\ E.op = op /\ i' = i + 1
Keep == UNCHANGED gs

Init == GraphInit /\ i = 1 /\ c \in 1..Len(Cases)
TNode == Ev("node") /\ AddNode(X, A(2), E.r)
TEdge == Ev("edge") /\ AddEdge(X, A(2), A(3))
TEid == Ev("eid") /\ IF E.r THEN AddNumbered(X, A(2), A(3), A(4)) ELSE NumberInUse(X, A(2), A(3), A(4))
TFind == Ev("find") /\ Keep /\ E.r = Find(G, A(2), A(3)) /\ E.d = DataOf(G, Find(G, A(2), A(3)))
TPath == Ev("path") /\ Keep /\ LET p == FindPath(G, A(2), A(3)) IN E.r = p /\ E.d = DataOf(G, p)
TSucc == Ev("succ") /\ Keep /\ E.r = Successors(G, A(2))
TMerge == Ev("merge") /\ Merge(X, 3 - X, A(2), A(3))
TAll == /\ Ev("all") /\ Keep /\ Len(E.r) = Size(G)
        /\ \A n \in 1..Len(E.r) : E.r[n] = <<G.data[n], Successors(G, n - 1), Edges(G, n - 1)>>
Finish == i = Len(Cases[c].steps) + 1 /\ Cases[c].end = "ok" /\ PrintT(<<"OK", c>>) /\ i' = i + 1 /\ Keep
Next == (TNode \/ TEdge \/ TEid \/ TFind \/ TPath \/ TSucc \/ TMerge \/ TAll \/ Finish) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<gs, c, i>>
=============================================================================
