------------------------------ MODULE TraceCalc -----------------------------
(* Recorded runs of a calculator (calc): for each script w whether it was accepted, the values left and what was printed. *)
EXTENDS Calc, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, j, s
X == Cases[c]
Kind == IF X.calc = "simple" THEN "simple" ELSE "stack"
R == X.parses[j]
Init == c \in 1..Len(Cases) /\ j = 1 /\ s = CStart
Read == j <= Len(X.parses) /\ ~COver(s) /\ s' = CStep(Kind, R.w, s) /\ UNCHANGED <<c, j>>
Judge == /\ R.ok = (s.mode = "accept")
         /\ s.mode = "accept" /\ s.sure => R.stack = s.st /\ R.out = s.out
Conclude == j <= Len(X.parses) /\ COver(s) /\ Judge /\ j' = j + 1 /\ s' = CStart /\ UNCHANGED c
Finish == j = Len(X.parses) + 1 /\ X.end = "ok" /\ PrintT(<<"OK", c>>) /\ j' = j + 1 /\ UNCHANGED <<c, s>>
Next == Read \/ Conclude \/ Finish
Spec == Init /\ [][Next]_<<c, j, s>>
=============================================================================
