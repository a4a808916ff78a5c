------------------------------- MODULE TraceTool ----------------------------
(* Recorded runs of the command-line tool: both files (<<>> if there is none to read), how it ended ("exit", "signal" or
   "timeout") and its exit status. Runs on the same rule file are judged on their own. *)
EXTENDS Tool, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
X == Cases[c]
Init == c \in 1..Len(Cases) /\ ToolInit
Judge == /\ X.end = "exit"
         /\ CASE status = "zero" -> X.status = 0 [] status = "nonzero" -> X.status # 0 [] status = "either" -> TRUE
Run == ToolNext(X.rules, X.script) /\ UNCHANGED c
Conclude == phase = "done" /\ Judge /\ PrintT(<<"OK", c>>) /\ phase' = "over" /\ UNCHANGED <<pos, stack, made, out, texts, s, g, tab, status, c>>
Next == Run \/ Conclude
Spec == Init /\ [][Next]_<<toolvars, c>>
=============================================================================
