-------------------------------- MODULE MCCalc ------------------------------
(* All short scripts over Chars: the machine that runs the instructions the calculator's productions have (in the order in
   which they are matched) computes what Calc says, with tiny integers. And Calc accepts exactly the sentences. *)
EXTENDS Calc, TLC, FiniteSets
CONSTANTS MaxPieces, PieceNames, TinyHiN
TinyLo(kind) == IF kind = "stack" THEN OfInt(0 - TinyHiN - 1) ELSE Zero
TinyHi(kind) == OfInt(TinyHiN)
P == [d0 |-> <<48>>, d1 |-> <<49>>, d3 |-> <<51>>, plus |-> <<43>>, minus |-> <<45>>, print |-> PRINT, prin |-> <<112, 114, 105, 110>>, sp |-> <<32>>, x |-> <<120>>]
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Join(Tail(q))
VARIABLES kind, pieces, s
w == Join([k \in 1..Len(pieces) |-> P[pieces[k]]])
Init == pieces \in UNION {[1..n -> PieceNames] : n \in 0..MaxPieces} /\ s = CStart /\ kind \in {"stack", "simple"}
Next == ~COver(s) /\ s' = CStep(kind, w, s) /\ UNCHANGED <<kind, pieces>>
MCSpec == Init /\ [][Next]_<<kind, pieces, s>>

\* the terms of an accepted script, by splitting at blanks
RECURSIVE Split(_, _)
Split(t, cur) == IF t = <<>> THEN <<cur>> ELSE IF t[1] = 32 THEN <<cur>> \o Split(Tail(t), <<>>) ELSE Split(Tail(t), Append(cur, t[1]))
Term(t) == t \in {<<43>>, <<45>>, PRINT} \/ AllDigits(t)
Terms == Split(w, <<>>)
Language == COver(s) => (s.mode = "accept") = \A k \in 1..Len(Terms) : Term(Terms[k])

\* instructions with the text of the node they run on
DigitIns(x) == <<<<<<"PushFromTree">>, <<<<x>>>>>>, <<<<"PushConst", OfInt(1)>>, <<>>>>>>
MoreIns == <<<<<<"PopToReg">>, <<>>>>, <<<<"PopToReg2">>, <<>>>>, <<<<"PopDiscard">>, <<>>>>, <<<<"Pow", OfInt(10)>>, <<>>>>, <<<<"RegAddConst", OfInt(1)>>, <<>>>>, <<<<"PushReg">>, <<>>>>>>
TermIns(t) == IF t = <<43>> THEN <<<<<<"PopToReg">>, <<>>>>, <<<<"Add">>, <<>>>>>>
              ELSE IF t = <<45>> THEN <<<<<<"PopToReg">>, <<>>>>, <<<<"Sub">>, <<>>>>>>
              ELSE IF t = PRINT THEN <<<<<<"PopToReg">>, <<>>>>, <<<<"PrintReg">>, <<>>>>>>
              ELSE Join([k \in 1..Len(t) |-> DigitIns(t[k])]) \o Join([k \in 1..(Len(t) - 1) |-> MoreIns]) \o <<<<<<"PopDiscard">>, <<>>>>>>
RECURSIVE Exec(_, _, _)
Exec(q, m, out) == IF q = <<>> THEN [m |-> m, out |-> out]
                   ELSE CHOOSE r \in {Exec(Tail(q), n, out \o Prints(m, q[1][1])) : n \in After(kind, m, q[1][1], q[1][2])} : TRUE
Machine == s.mode = "accept" /\ s.sure =>
             LET r == Exec(Join([k \in 1..Len(Terms) |-> TermIns(Terms[k])]), Fresh, <<>>) IN
             r.m.stack = s.st /\ r.out = s.out /\ r.m.err = 0
=============================================================================
