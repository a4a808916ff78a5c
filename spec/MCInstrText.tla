----------------------------- MODULE MCInstrText ----------------------------
(* The reader on all short sequences of pieces (names, numbers, blanks, semicolons): it comes to an end, acceptance means
   that writing the instructions out and reading them again gives the same, leaving out unknown names changes nothing, and
   a text is accepted exactly when each of its parts up to a semicolon is. *)
EXTENDS InstrText
CONSTANTS MaxPieces, PieceNames
P == [add |-> <<65, 100, 100>>, pow |-> <<80, 111, 119>>, push |-> <<80, 117, 115, 104, 67, 111, 110, 115, 116>>, unk |-> <<120>>, semi |-> <<59>>, sp |-> <<32>>,
      num |-> <<48, 55>>, big |-> MaxIsize, max |-> MaxUsize, over |-> MaxUsize \o <<48>>, minus |-> <<45>>]
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Join(Tail(q))
VARIABLES pieces, s
w == Join([k \in 1..Len(pieces) |-> P[pieces[k]]])
Init == pieces \in UNION {[1..n -> PieceNames] : n \in 0..MaxPieces} /\ s = IStart
Next == ~IOver(s) /\ s' = IStep(w, s) /\ UNCHANGED pieces
MCSpec == Init /\ [][Next]_<<pieces, s>>
RECURSIVE Read(_, _)
Read(t, r) == IF IOver(r) THEN r ELSE Read(t, IStep(t, r))
Progress == [][IOver(s') \/ s'.at > s.at \/ s'.mode # s.mode]_s
Ends == s.at <= Len(w)
Write1(i) == (CHOOSE t \in DOMAIN Known : Known[t] = i[1]) \o (IF Len(i) = 2 THEN <<32>> \o i[2] ELSE <<>>) \o <<59>>
Canonical == s.mode = "accept" => LET r == Read(Join([k \in 1..Len(s.ins) |-> Write1(s.ins[k])]), IStart) IN r.mode = "accept" /\ r.ins = s.ins
Shape == \A k \in 1..Len(s.ins) : /\ s.ins[k][1] \in {Known[t] : t \in DOMAIN Known}
                                  /\ Len(s.ins[k]) = (IF s.ins[k][1] \in WithNumber THEN 2 ELSE 1)
                                  /\ (Len(s.ins[k]) = 2 => NumLE(s.ins[k][2], Largest(s.ins[k][1])))
Semis == {k \in 1..Len(w) : w[k] = 59}
\* reading is part by part
Parts == IOver(s) => \A k \in Semis :
           LET a == Read(SubSeq(w, 1, k), IStart)  b == Read(SubSeq(w, k + 1, Len(w)), IStart) IN
           (s.mode = "accept") = (a.mode = "accept" /\ b.mode = "accept") /\ (s.mode = "accept" => s.ins = a.ins \o b.ins)
=============================================================================
