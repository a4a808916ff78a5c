--------------------------- MODULE TraceNamedGraph --------------------------
EXTENDS NamedGraph, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
E == Cases[c].steps[i]
A(k) == E.a[k]
Ev(op) == i <= Len(Cases[c].steps) /\ E.op = op /\ i' = i + 1
Keep == UNCHANGED nvars
Init == NamedInit /\ i = 1 /\ c \in 1..Len(Cases)
TNode == Ev("node") /\ AddNode(A(1), A(2), E.r)
TEdge == Ev("edge") /\ AddEdge(A(1), A(2), E.r)
TSet == Ev("set") /\ SetData(A(1), A(2), E.r)
TSeti == Ev("seti") /\ SetDataIx(A(1), A(2), E.r)
TGet == (Ev("get") \/ Ev("getm")) /\ Keep /\ E.r = Data(A(1))
TGeti == (Ev("geti") \/ Ev("getim")) /\ Keep /\ E.r = DataAt(A(1))
TSucci == Ev("succi") /\ Keep /\ E.r = Succ(A(1))
TSucc == Ev("succ") /\ Keep /\ E.r = SuccData(A(1))
TName == Ev("name") /\ Keep /\ E.r = IndexOf(A(1))
Finish == i = Len(Cases[c].steps) + 1 /\ Cases[c].end = "ok" /\ PrintT(<<"OK", c>>) /\ i' = i + 1 /\ Keep
Next == (TNode \/ TEdge \/ TSet \/ TSeti \/ TGet \/ TGeti \/ TSucci \/ TSucc \/ TName \/ Finish) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<names, data, succ, c, i>>
=============================================================================
