---------------------------- MODULE TraceMachines ---------------------------
(* Recorded histories of the counting and the null machine: a case has the grammar (in GRAMS, with the number of
   instructions of each production), the machine, and parses that go on with the state the one before left behind:
   [w: script, before: state, after: state, ok]. *)
EXTENDS Machines, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Grams == ndJsonDeserialize(IOEnv.GRAMS)
OfGram(g) == LET S == Sets(g) IN [tab |-> TableOf(g, S), usable |-> Usable(g, S)]
Known == [n \in 1..Len(Grams) |-> OfGram(Grams[n])]
VARIABLES c, j
X == Cases[c]
G == Grams[X.gram]
K == Known[X.gram]
P == X.parses[j]
Init == c \in 1..Len(Cases) /\ j = 1 /\ pos = 0 /\ stack = <<>> /\ made = 0 /\ out = "start" /\ count = X.first
Setup == /\ out = "start" /\ X.end = "ok" /\ K.usable
         /\ IF j <= Len(X.parses) THEN P.before = count /\ Begin(G.start) /\ UNCHANGED <<c, j, count>>
            ELSE X.fresh = 0 /\ PrintT(<<"OK", c>>) /\ out' = "over" /\ UNCHANGED <<pos, stack, made, c, j, count>>
Run == out = "run" /\ MStep(K.tab, P.w, X.machine, G.n) /\ UNCHANGED <<c, j>>
\* whether the script is accepted is the business of C01
Conclude == /\ out \in {"accept", "reject"} /\ (P.ok = (out = "accept") => P.after = count)
            /\ out' = "start" /\ j' = j + 1 /\ count' = P.after /\ UNCHANGED <<pos, stack, made, c>>
Next == Setup \/ Run \/ Conclude
Spec == Init /\ [][Next]_<<pos, stack, made, out, count, c, j>>
=============================================================================
