---------------------------- MODULE TraceLanguage ---------------------------
(* Recorded lives of a language. A case has the machine (vm), the rule text t, whether a parser came out of it (parser), and
   its parses, each with the script w, whether it began with a fresh state, the result, the state and the output. *)
EXTENDS Language, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
MachineLo(kind) == VM!MachineLo(kind)
MachineHi(kind) == VM!MachineHi(kind)
VARIABLES c, j
X == Cases[c]
R == X.parses[j]
Of(x) == [stack |-> x.stack, reg |-> x.reg, reg2 |-> x.reg2, err |-> x.err]
Init == c \in 1..Len(Cases) /\ j = 0 /\ LangInit(X.t) /\ \A k \in 1..Len(X.t) : RT!KnownChar(X.t[k])
Between == phase = "script" /\ (j = 0 \/ out = "judged")
Run == ~Between /\ ~(phase = "script" /\ out \in {"accept", "reject"} /\ todo = <<>>) /\ LangNext(X.vm) /\ UNCHANGED <<c, j>>
\* a parse has ended
Judge == /\ phase = "script" /\ todo = <<>> /\ out \in {"accept", "reject"}
         /\ R.ok = (out = "accept") /\ R.out = printed /\ m = Of(R.s)
         /\ out' = "judged" /\ UNCHANGED <<pos, stack, made, phase, texts, s, g, tab, status, reading, running, c, j>>
Start == Between /\ X.parser /\ j < Len(X.parses) /\ j' = j + 1 /\ Again(X.parses[j + 1].w, X.parses[j + 1].fresh) /\ UNCHANGED c
Finish == /\ \/ Between /\ X.parser /\ j = Len(X.parses)
             \/ phase = "done" /\ j = 0 /\ ~X.parser
          /\ X.end = "ok" /\ PrintT(<<"OK", c>>)
          /\ phase' = "over" /\ UNCHANGED <<pos, stack, made, out, texts, s, g, tab, status, reading, running, c, j>>
Next == Run \/ Judge \/ Start \/ Finish
Spec == Init /\ [][Next]_<<langvars, c, j>>
=============================================================================
