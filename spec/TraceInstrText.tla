--------------------------- MODULE TraceInstrText ---------------------------
(* Recorded readings of instruction sections by a stack VM (vm: stack or simple) for production name. *)
EXTENDS InstrText, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, s, over
X == Cases[c]
Init == c \in 1..Len(Cases) /\ s = IStart /\ over = FALSE /\ (\A k \in 1..Len(X.t) : KnownChar(X.t[k])) /\ (\A k \in 1..Len(X.name) : KnownChar(X.name[k]))
Read == X.vm = "stack" /\ ~IOver(s) /\ s' = IStep(X.t, s) /\ UNCHANGED <<c, over>>
Judge == IF X.vm = "simple" THEN X.ok /\ X.ins = SimpleFor(X.name)
         ELSE X.ok = (s.mode = "accept") /\ (X.ok => X.ins = s.ins)
Finish == /\ ~over /\ (IOver(s) \/ X.vm = "simple") /\ X.end = "ok" /\ Judge
          /\ over' = TRUE /\ PrintT(<<"OK", c>>) /\ UNCHANGED <<c, s>>
Next == Read \/ Finish
Spec == Init /\ [][Next]_<<c, s, over>>
=============================================================================
