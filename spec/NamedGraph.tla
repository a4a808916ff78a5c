----------------------------- MODULE NamedGraph -----------------------------
(* The graph with named nodes behind named_graph::GraphNamedNodes: a name denotes one node for good; nodes are also
   numbered from 0 in order of addition; edges leave a node in a list with the latest first. *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES names,   \* name -> node
          data,    \* Seq: data of node n at n + 1
          succ     \* Seq: successors of node n at n + 1, latest edge first
nvars == <<names, data, succ>>

NamedInit == names = <<>> /\ data = <<>> /\ succ = <<>>
Known(x) == x \in DOMAIN names
IsIx(n) == n < Len(data)
\* r is the answer: <<>> refused, <<value>> otherwise
AddNode(x, d, r) ==
  IF Known(x) THEN r = <<>> /\ UNCHANGED nvars
  ELSE /\ r = <<Len(data)>>
       /\ names' = [y \in DOMAIN names \cup {x} |-> IF y = x THEN Len(data) ELSE names[y]]
       /\ data' = Append(data, d) /\ succ' = Append(succ, <<>>)
AddEdge(s, t, r) ==
  IF Known(s) /\ Known(t)
  THEN r = <<0>> /\ succ' = [succ EXCEPT ![names[s] + 1] = <<names[t]>> \o @] /\ UNCHANGED <<names, data>>
  ELSE r = <<>> /\ UNCHANGED nvars
SetData(x, d, r) == IF Known(x) THEN r = <<0>> /\ data' = [data EXCEPT ![names[x] + 1] = d] /\ UNCHANGED <<names, succ>>
                    ELSE r = <<>> /\ UNCHANGED nvars
SetDataIx(n, d, r) == IF IsIx(n) THEN r = <<0>> /\ data' = [data EXCEPT ![n + 1] = d] /\ UNCHANGED <<names, succ>>
                      ELSE r = <<>> /\ UNCHANGED nvars
\* lookups
IndexOf(x) == IF Known(x) THEN <<names[x]>> ELSE <<>>
DataAt(n) == IF IsIx(n) THEN <<data[n + 1]>> ELSE <<>>
Data(x) == IF Known(x) THEN DataAt(names[x]) ELSE <<>>
Succ(x) == IF Known(x) THEN <<succ[names[x] + 1]>> ELSE <<>>
SuccData(x) == IF Known(x) THEN <<[k \in 1..Len(Succ(x)[1]) |-> <<Succ(x)[1][k], data[Succ(x)[1][k] + 1]>>]>> ELSE <<>>

NamedOK == /\ Len(succ) = Len(data) /\ Cardinality(DOMAIN names) = Len(data)
           /\ \A x, y \in DOMAIN names : names[x] = names[y] => x = y
           /\ \A n \in 1..Len(succ) : \A k \in 1..Len(succ[n]) : IsIx(succ[n][k])
NamesStable == [][\A x \in DOMAIN names : x \in DOMAIN names' /\ names'[x] = names[x]]_nvars
EdgesStable == [][\A n \in 1..Len(succ) : LET k == Len(succ'[n]) - Len(succ[n]) IN
                     k \in {0, 1} /\ SubSeq(succ'[n], k + 1, Len(succ'[n])) = succ[n]]_nvars
=============================================================================
