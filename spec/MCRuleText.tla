------------------------------ MODULE MCRuleText ----------------------------
(* The reader on all short texts: it always comes to an end, a rejection is at the first character no rule file with this
   beginning has (shown by completing what was read before it), and every acceptance is of a text that printing the result
   in canonical layout spells out again. *)
EXTENDS RuleText, TLC
CONSTANTS MaxLen, Alphabet, Prefixes, VMs
AllReader == {[upto |-> No, fail |-> 0]}
SomeReaders == {[upto |-> No, fail |-> 0], [upto |-> 1, fail |-> 0], [upto |-> No, fail |-> 1]}
NoPrefix == {<<>>}
\* a->   a->b"   a->"b"{   $IGNORE:a;   a->$[IGNORE:   a->#;a->
Arrow == <<97, 45, 62>>
SomePrefixes == {Arrow, Arrow \o <<98, 34>>, Arrow \o <<34, 98, 34, 123>>, <<36>> \o IGNORE, Arrow \o <<36, 91>> \o IGNORE, Arrow \o <<35, 59>> \o Arrow}
VARIABLES w, s, vm
Init == /\ \E pre \in Prefixes : w \in {pre \o t : t \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}}
        /\ vm \in VMs /\ s = Start
Next == ~Over(s) /\ s' = Step(w, s, vm) /\ UNCHANGED <<w, vm>>
MCSpec == Init /\ [][Next]_<<w, s, vm>>
RECURSIVE Read(_, _)
Read(t, r) == IF Over(r) THEN r ELSE Read(t, Step(t, r, [upto |-> No, fail |-> 0]))
Progress == [][Over(s') \/ s'.at > s.at \/ s'.mode # s.mode]_s
PlaceInText == s.at <= Len(w)

\* how the text read up to a rejection can be completed; the mode is that of the state that rejected
Completion(m, alt) ==
  CASE m = "top" -> <<>>
    [] m = "dir" -> IGNORE \o <<58, 97, 59>> [] m = "dir:" -> <<58, 97, 59>> [] m = "dir name" -> <<97, 59>> [] m = "dir;" -> <<59>>
    [] m = "name" -> <<97>> \o Arrow \o <<35, 59>> [] m = "-" -> <<45, 62, 35, 59>> [] m = ">" -> <<62, 35, 59>>
    [] m = "override" -> <<35, 59>> [] m = "[" -> <<91>> \o IGNORE \o <<58, 35, 93, 35, 59>>
    [] m = "key" -> IGNORE \o <<58, 35, 93, 35, 59>> [] m = "ign:" -> <<58, 35, 93, 35, 59>> [] m = "other:" -> <<58, 93, 35, 59>>
    [] m = "ign" -> <<35, 93, 35, 59>> [] m = "]" -> <<93, 35, 59>>
    [] m = "element" -> IF alt = <<>> THEN <<35, 59>> ELSE <<59>>
    [] m = "after" -> <<59>> [] m = "section" -> <<125, 59>> [] m = "}" -> <<125, 59>> [] m = ";" -> <<59>>
\* unfinished texts: also a terminal may have to be closed (the text may end in its middle, or in an escape)
Completions(m, alt) == {Completion(m, alt)} \cup (IF m = "element" THEN {<<34, 59>>, <<97, 34, 59>>} ELSE {}) \cup (IF m \in {"section", "}"} THEN {<<97, 125, 59>>} ELSE {})
Rejecting == ~Over(s) /\ Step(w, s, vm).mode = "reject" /\ vm = [upto |-> No, fail |-> 0]
Viable == Rejecting => \E t \in Completions(s.mode, s.alt) : Read(SubSeq(w, 1, Step(w, s, vm).at) \o t, Start).mode = "accept"
NotViable == Rejecting => LET p == Step(w, s, vm).at IN p < Len(w) =>
               \A t \in Completions(s.mode, s.alt) \cup {<<>>} : LET r == Read(SubSeq(w, 1, p + 1) \o t, Start) IN r.mode = "reject" /\ r.at = p

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
PrintSym(x) == (IF x[1] = "t" THEN <<Quote>> \o x[2] \o <<Quote>> ELSE x[2]) \o <<32>>
PrintAlt(a) == IF a = <<>> THEN <<Hash>> ELSE Flat([k \in 1..Len(a) |-> PrintSym(a[k])])
PrintAlts(as) == Flat([k \in 1..Len(as) |-> (IF k = 1 THEN <<>> ELSE <<32, Bar, 10>>) \o PrintAlt(as[k])])
PrintIgn(x) == <<Dollar, Open>> \o IGNORE \o <<Colon>> \o (IF x = <<>> THEN <<Hash>> ELSE x[1]) \o <<Close>>
PrintDef(d) == <<9>> \o d.name \o <<32>> \o <<Minus, Greater, 32>> \o PrintIgn(d.ign) \o PrintAlts(d.alts)
               \o (IF d.call = 0 THEN <<>> ELSE <<CurlyO, 32>> \o s.calls[d.call][2] \o <<CurlyC>>) \o <<32, Semi, 10>>
Printed == Flat([k \in 1..Len(s.defs) |-> PrintDef(s.defs[k])])
SpellsOut == s.mode = "accept" => LET r == Read(Printed, Start) IN r.mode = "accept" /\ r.defs = s.defs /\ r.calls = s.calls /\ r.els \subseteq s.els
\* a backslash at the end of a section's beginning cannot be told from the text, apart from that it is what was written
SectionsWritten == \A k \in 1..Len(s.calls) : \A m \in 1..Len(s.calls[k][2]) : s.calls[k][2][m] = CurlyC => m > 1 /\ s.calls[k][2][m - 1] = Back
\* weaving keeps the elements and their order
WeaveKeeps == s.mode = "accept" => \A n \in NamesOf(s) : \A k \in 1..Len(Alts(s, n)) :
                LET a == Alts(s, n)[k]  b == Woven(s, n)[k] IN
                a = b \/ (Len(b) = 2 * Len(a) - 1 /\ \A m \in 1..Len(b) : IF m % 2 = 1 THEN b[m] = a[(m + 1) \div 2] ELSE b[m] = N(Setting(s, n)[1]))
=============================================================================
