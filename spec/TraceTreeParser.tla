--------------------------- MODULE TraceTreeParser --------------------------
(* Recorded parses whose instructions alter the tree. A case has its grammar (in GRAMS, with instructions) and parses
   [w: script, ok, control: the outcome without instructions, seen: for every instruction <<tree before it, kept branch
   before it, whether it did something>>, last: tree and kept branch of an accepted script]. *)
EXTENDS TreeParser, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Grams == ndJsonDeserialize(IOEnv.GRAMS)
OfGram(g) == LET S == Sets(g) IN [tab |-> TableOf(g, S), usable |-> Usable(g, S)]
Known == [n \in 1..Len(Grams) |-> OfGram(Grams[n])]
VARIABLES c, j, r, good
tvars == <<pos, stack, made, out, f, used, todo, cur, kept, c, j, r, good>>
X == Cases[c]
G == Grams[X.gram]
K == Known[X.gram]
P == X.parses[j]
Init == c \in 1..Len(Cases) /\ j = 1 /\ r = 0 /\ good = TRUE /\ pos = 0 /\ stack = <<>> /\ made = 0 /\ out = "start" /\ EInit
Setup == /\ out = "start" /\ X.end = "ok" /\ K.usable
         /\ IF j <= Len(X.parses) THEN Begin(G.start) /\ r' = 0 /\ good' = TRUE /\ f' = <<>> /\ used' = {} /\ todo' = <<>> /\ cur' = None /\ kept' = None /\ UNCHANGED <<c, j>>
            ELSE PrintT(<<"OK", c>>) /\ out' = "over" /\ UNCHANGED <<pos, stack, made, f, used, todo, cur, kept, c, j, r, good>>
Parse == /\ out = "run" /\ (EPredict(K.tab, P.w) \/ EMatch(P.w) \/ EComplete(G.inst) \/ EEnd(K.tab, P.w)) /\ UNCHANGED <<c, j, r, good>>
Run == /\ out = "run" /\ Instruct /\ r' = r + 1 /\ UNCHANGED <<c, j>>
       /\ good' = (good /\ r < Len(P.seen) /\ P.seen[r + 1] = <<View(<<1>>, 0), View(kept, 0), Works>>)
Conclude == /\ out \in {"accept", "reject"}
            /\ P.ok = P.control
            /\ P.ok = (out = "accept") => good /\ Len(P.seen) = r /\ (P.ok => P.last = <<View(<<1>>, 0), View(kept, 0)>>)
            /\ out' = "start" /\ j' = j + 1 /\ UNCHANGED <<pos, stack, made, f, used, todo, cur, kept, c, r, good>>
Next == Setup \/ Parse \/ Run \/ Conclude
Spec == Init /\ [][Next]_tvars
=============================================================================
