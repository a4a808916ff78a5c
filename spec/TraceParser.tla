----------------------------- MODULE TraceParser ----------------------------
(* Recorded parses. A case is the history of one parser: its grammar (a number in GRAMS) and its parses, one after the
   other, each with the script, the nodes of the tree in preorder as far as they were seen, the instructions run, as
   <<label, node, nodes made by then>>, and the result. What is judged depends on the property (ASPECT); a disagreement
   about acceptance itself is the business of C01 and C22 only. *)
EXTENDS Parser, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Grams == ndJsonDeserialize(IOEnv.GRAMS)
Aspect == IOEnv.ASPECT
OfGram(g) == LET S == Sets(g) IN [tab |-> TableOf(g, S), usable |-> Usable(g, S), productive |-> AllProductive(g)]
Known == [n \in 1..Len(Grams) |-> OfGram(Grams[n])]
VARIABLES c, j,   \* case, parse
          r,      \* instruction runs seen
          good    \* everything but the verdict has agreed so far
tvars == <<pos, stack, made, out, c, j, r, good>>
G == Grams[Cases[c].gram]
K == Known[Cases[c].gram]
P == Cases[c].parses[j]
W == P.w
Trees == Aspect \in {"C02", "C22"}
Runs == Aspect \in {"C04", "C22"}
TInit == /\ c \in 1..Len(Cases) /\ j = 1 /\ r = 0 /\ good = TRUE
         /\ pos = 0 /\ stack = <<>> /\ made = 0 /\ out = "start"
Setup == /\ out = "start" /\ Cases[c].end = "ok" /\ K.usable
         /\ (IF j <= Len(Cases[c].parses) THEN Begin(G.start) /\ r' = 0 /\ good' = TRUE /\ UNCHANGED <<c, j>>
             ELSE PrintT(<<"OK", c>>) /\ out' = "over" /\ UNCHANGED <<pos, stack, made, c, j, r, good>>)
\* the node just made is the recorded one (of a rejected script only a part of the tree has been seen)
NodeOK == Trees \/ Runs => (made + 1 <= Len(P.nodes) => P.nodes[made + 1] = NewNode)
Build == (Predict(K.tab, W) \/ Match(W)) /\ good' = (good /\ NodeOK) /\ UNCHANGED <<c, j, r>>
Insts(k) == G.inst[k]
RunsOK(k, node) == /\ r + Len(Insts(k)) <= Len(P.runs)
                   /\ \A x \in 1..Len(Insts(k)) : P.runs[r + x] = <<Insts(k)[x], node, made>>
TComplete == Complete /\ good' = (good /\ (Runs => RunsOK(Top.sym[2], Top.node))) /\ r' = r + Len(Insts(Top.sym[2])) /\ UNCHANGED <<c, j>>
\* what an error says was expected: lookaheads, separated by semicolons
Terminate == <<116, 101, 114, 109, 105, 110, 97, 116, 101>>
RECURSIVE Listed(_, _)
Listed(e, i) ==
  LET word == i + 9 <= Len(e) /\ SubSeq(e, i + 1, i + 9) = Terminate
      tok == IF word THEN End ELSE e[i + 1]
      n == IF word THEN i + 9 ELSE i + 1
  IN  IF n = Len(e) THEN <<tok>> ELSE IF e[n + 1] # 59 \/ n + 1 = Len(e) THEN <<tok, 0 - 9>> ELSE <<tok>> \o Listed(e, n + 1)
ExpectedOK ==
  LET e == P.res.exp  ls == IF e = <<>> THEN <<>> ELSE Listed(e, 0) IN
  IF stack = <<>> THEN e = Terminate
  ELSE IF Top.sym[1] = "t" THEN e = <<Top.sym[2][Common(Top.sym[2], W) + 1]>>
  ELSE {ls[i] : i \in 1..Len(ls)} = DOMAIN K.tab[Top.sym[2]] /\ Len(ls) = Cardinality(DOMAIN K.tab[Top.sym[2]])
Decide == /\ Accept(W) \/ Reject(K.tab, W)
          /\ good' = (good /\ (Aspect = "C26" /\ out' = "reject" /\ ~P.res.ok /\ P.res.kind = "char" => ExpectedOK))
          /\ UNCHANGED <<c, j, r>>
\* the place and character of an error; at the end of the script there is no character to name
PlaceOK == P.res.pos = pos /\ (pos < Len(W) => P.res.kind = "char" /\ P.res.chr = W[pos + 1])
Same == P.res.ok = (out = "accept")
TreeOK == out = "accept" => good /\ P.tree /\ Len(P.nodes) = made
AllRuns == good /\ r = Len(P.runs) /\ P.growing
Judge == CASE Aspect = "C01" -> Same
           [] Aspect = "C02" -> Same => TreeOK
           [] Aspect = "C03" -> Same /\ out = "reject" /\ K.productive => PlaceOK
           [] Aspect = "C04" -> Same => AllRuns
           [] Aspect = "C26" -> Same => good
           [] Aspect = "C22" -> Same /\ TreeOK /\ AllRuns /\ (out = "reject" /\ K.productive => PlaceOK)
Conclude == /\ out \in {"accept", "reject"} /\ Judge
            /\ out' = "start" /\ j' = j + 1 /\ UNCHANGED <<pos, stack, made, c, r, good>>
Next == Setup \/ Build \/ TComplete \/ Decide \/ Conclude
Spec == TInit /\ [][Next]_tvars
=============================================================================
