---------------------------- MODULE TraceStackVm ----------------------------
(* Recorded executions of instructions. A case has the tree's nodes <<parent or 0, text>> in order of creation, those whose
   branches were removed (gone), the initial state and the instructions with the node each is run for. Each step logs the
   state afterwards, what was printed, and that everything else is as before (same). *)
EXTENDS StackVm, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, m
X == Cases[c]
N == Len(X.steps)
\* the record as the log has it
Of(s) == [stack |-> s.stack, reg |-> s.reg, reg2 |-> s.reg2, err |-> s.err]
RECURSIVE Gone(_)
Gone(n) == n # 0 /\ ((\E k \in 1..Len(X.gone) : X.gone[k] = n) \/ Gone(X.nodes[n][1]))
FirstChild(n) == LET K == {k \in 1..Len(X.nodes) : X.nodes[k][1] = n /\ ~Gone(k)} IN
                 IF Gone(n) \/ K = {} THEN <<>> ELSE <<X.nodes[CHOOSE k \in K : \A j \in K : k <= j][2]>>
Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ m = Of(X.initial) /\ m = (IF X.fresh THEN Fresh ELSE Of(X.state))
Run == /\ i <= N /\ N = Len(X.ops)
       /\ LET E == X.steps[i]  op == X.ops[i] IN
          /\ E.same /\ E.out = Prints(m, op.i)
          /\ \E t \in {Of(E.s)} : t \in After(X.vm, m, op.i, IF op.i[1] = "PushFromTree" THEN FirstChild(op.n) ELSE <<>>) /\ m' = t
       /\ i' = i + 1 /\ UNCHANGED c
Finish == i = N + 1 /\ N = Len(X.ops) /\ X.end = "ok" /\ PrintT(<<"OK", c>>) /\ i' = i + 1 /\ UNCHANGED <<c, m>>
Next == Run \/ Finish
Spec == Init /\ [][Next]_<<c, i, m>>
=============================================================================
