----------------------------- MODULE TraceBuilder ---------------------------
EXTENDS Builder, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
E == Cases[c].steps[i]
A(k) == E.a[k]
Ev(op) == i <= Len(Cases[c].steps) /\ E.op = op /\ i' = i + 1
Keep == UNCHANGED bvars
Rule(p) == <<[k \in 1..Len(AltsOf(p)) |-> IF AltsOf(p)[k] = <<>> THEN <<"empty", <<>>>> ELSE <<"seq", AltsOf(p)[k]>>],
             InstOf(p)>>
Init == BuilderInit /\ i = 1 /\ c \in 1..Len(Cases)
TMention == (Ev("key") \/ Ev("add")) /\ Mention(<<A(1), A(2)>>, E.r)
TProd == Ev("prod") /\ AddProduction(A(1), A(2))
TProds == Ev("prods") /\ SetProductions(A(1), A(2))
TInst == Ev("inst") /\ SetInstructions(A(1), A(2))
TFind == Ev("find") /\ Keep /\ LET x == IndexOf(<<A(1), A(2)>>) IN E.r = <<x, x, x>>
TAt == Ev("at") /\ Keep
       /\ LET e == Element(A(1)) IN
          E.r = IF e = <<>> THEN <<<<>>, <<>>, <<>>, TRUE>>
                ELSE <<<<e[1][2]>>, <<<<A(1), e[1][1]>>>>, <<e[1]>>, TRUE>>
TElems == Ev("elems") /\ Keep /\ E.r = elems
TRule == Ev("rule") /\ Keep /\ LET r == Rule(A(1)) IN E.r = <<r, r, r>>
TRulen == Ev("rulen") /\ Keep
          /\ LET x == IndexOf(<<"n", A(1)>>) IN E.r = IF x = <<>> THEN <<<<>>, <<>>>> ELSE Rule(x[1])
Finish == i = Len(Cases[c].steps) + 1 /\ Cases[c].end = "ok" /\ PrintT(<<"OK", c>>) /\ i' = i + 1 /\ Keep
Next == (TMention \/ TProd \/ TProds \/ TInst \/ TFind \/ TAt \/ TElems \/ TRule \/ TRulen \/ Finish) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<elems, alts, inst, c, i>>
=============================================================================
