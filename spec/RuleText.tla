------------------------------- MODULE RuleText -----------------------------
(* The reader of rule files (rule_parsing), one lexeme at a time, on a text w. s is its state:
   at: characters read, mode: what comes next, defs: the definitions read, ign: the ignored production set by the latest
   $IGNORE directive (<<>> or <<name>>), cur/alt: the definition and the alternative being read, calls: what the VM was
   asked, els: all elements mentioned. A VM reads the first vm.upto characters of a section (all if -1) and fails in call
   number vm.fail. *)
EXTENDS Scan
Quote == 34  Hash == 35  Dollar == 36  Minus == 45  Colon == 58  Semi == 59  Greater == 62  Open == 91  Back == 92
Close == 93  CurlyO == 123  Bar == 124  CurlyC == 125
IGNORE == <<73, 71, 78, 79, 82, 69>>

\* a terminal ends at the first quote that is not escaped; a backslash escapes the character after it
RECURSIVE TermEnd(_, _)
TermEnd(w, i) == IF i >= Len(w) THEN No ELSE IF w[i + 1] = Quote THEN i
                 ELSE IF w[i + 1] = Back THEN TermEnd(w, i + 2) ELSE TermEnd(w, i + 1)
\* a section ends at the first closing brace that does not directly follow a backslash of the section
SectionEnd(w, i) == Least({j \in i..(Len(w) - 1) : w[j + 1] = CurlyC /\ ~(j > i /\ w[j] = Back)}, Len(w))

T(x) == <<"t", x>>
N(x) == <<"n", x>>
Fresh == [name |-> <<>>, ign |-> <<>>, alts |-> <<>>, uses |-> {}, call |-> 0]   \* uses: the productions in alts
Start == [at |-> 0, mode |-> "top", defs |-> <<>>, ign |-> <<>>, cur |-> Fresh, alt |-> <<>>, calls |-> <<>>, els |-> {}]
\* reading ends: with a grammar, or at a place where it cannot go on
Reject(s, i) == [s EXCEPT !.mode = "reject", !.at = i]
To(s, i, m) == [s EXCEPT !.at = i, !.mode = m]
Expect(w, s, i, ch, m) == IF Ch(w, i) = ch THEN To(s, i + 1, m) ELSE Reject(s, i)
ReadCall(w, i, e, vm) == IF vm.upto = No \/ vm.upto > e - i THEN e ELSE i + vm.upto

Step(w, s, vm) ==
  LET i == s.at
      p == Sp(w, i)
  IN
  CASE s.mode = "top" -> IF p = Len(w) THEN To(s, p, "accept")
                         ELSE IF Ch(w, p) = Dollar THEN To(s, p + 1, "dir") ELSE To(s, p, "name")
    \* $IGNORE : name ;
    [] s.mode = "dir" -> IF AtName(w, i) /\ Cut(w, i, NameTo(w, i)) = IGNORE THEN To(s, NameTo(w, i), "dir:") ELSE Reject(s, i)
    [] s.mode = "dir:" -> Expect(w, s, p, Colon, "dir name")
    [] s.mode = "dir name" -> IF AtName(w, p)
         THEN [To(s, NameTo(w, p), "dir;") EXCEPT !.cur.ign = <<Cut(w, p, NameTo(w, p))>>]
         ELSE Reject(s, p)
    [] s.mode = "dir;" -> IF Ch(w, p) = Semi THEN [To(s, p + 1, "top") EXCEPT !.ign = s.cur.ign, !.els = @ \cup {N(s.cur.ign[1])}] ELSE Reject(s, p)
    \* name -> $[IGNORE:name] alternatives {section} ;
    [] s.mode = "name" -> IF AtName(w, i)
         THEN [To(s, NameTo(w, i), "-") EXCEPT !.cur = [Fresh EXCEPT !.name = Cut(w, i, NameTo(w, i)), !.ign = s.ign], !.els = @ \cup {N(Cut(w, i, NameTo(w, i)))}]
         ELSE Reject(s, i)
    [] s.mode = "-" -> Expect(w, s, p, Minus, ">")
    [] s.mode = ">" -> Expect(w, s, i, Greater, "override")
    [] s.mode = "override" -> IF Ch(w, p) = Dollar THEN To(s, p + 1, "[") ELSE To(s, p, "element")
    [] s.mode = "[" -> Expect(w, s, i, Open, "key")
    [] s.mode = "key" -> IF AtName(w, i) THEN To(s, NameTo(w, i), IF Cut(w, i, NameTo(w, i)) = IGNORE THEN "ign:" ELSE "other:") ELSE Reject(s, i)
    [] s.mode = "ign:" -> Expect(w, s, p, Colon, "ign")
    [] s.mode = "other:" -> Expect(w, s, p, Colon, "]")
    [] s.mode = "ign" -> IF Ch(w, i) = Hash THEN [To(s, i + 1, "]") EXCEPT !.cur.ign = <<>>]
                         ELSE IF AtName(w, i) THEN [To(s, NameTo(w, i), "]") EXCEPT !.cur.ign = <<Cut(w, i, NameTo(w, i))>>, !.els = @ \cup {N(Cut(w, i, NameTo(w, i)))}]
                         ELSE Reject(s, i)
    [] s.mode = "]" -> Expect(w, s, i, Close, "element")
    [] s.mode = "element" ->
         IF Ch(w, p) = Quote
         THEN LET e == TermEnd(w, p + 1) IN
              IF e = No THEN Reject(s, Len(w))
              ELSE [To(s, e + 1, "element") EXCEPT !.alt = Append(@, T(Cut(w, p + 1, e))), !.els = @ \cup {T(Cut(w, p + 1, e))}]
         ELSE IF AtName(w, p)
         THEN LET e == NameTo(w, p) IN [To(s, e, "element") EXCEPT !.alt = Append(@, N(Cut(w, p, e))), !.cur.uses = @ \cup {Cut(w, p, e)}, !.els = @ \cup {N(Cut(w, p, e))}]
         ELSE IF Ch(w, p) = Hash
         THEN IF s.alt = <<>> THEN [To(s, p + 1, "after") EXCEPT !.cur.alts = Append(@, <<>>)] ELSE Reject(s, p)
         ELSE IF s.alt = <<>> THEN Reject(s, p) ELSE [To(s, p, "after") EXCEPT !.cur.alts = Append(@, s.alt), !.alt = <<>>]
    [] s.mode = "after" -> IF Ch(w, p) = Bar THEN To(s, p + 1, "element") ELSE IF Ch(w, p) = CurlyO THEN To(s, p + 1, "section") ELSE To(s, p, ";")
    [] s.mode = "section" ->
         LET e == SectionEnd(w, p)  n == Len(s.calls) + 1  to == ReadCall(w, p, e, vm) IN
         LET asked == [s EXCEPT !.calls = Append(@, <<s.cur.name, Cut(w, p, to)>>), !.cur.call = n] IN
         IF n = vm.fail \/ to < e THEN Reject(asked, to) ELSE To(asked, e, "}")
    [] s.mode = "}" -> Expect(w, s, i, CurlyC, ";")
    [] s.mode = ";" -> IF Ch(w, p) = Semi THEN [To(s, p + 1, "top") EXCEPT !.defs = Append(@, s.cur)] ELSE Reject(s, p)
Over(s) == s.mode \in {"accept", "reject"}

-----------------------------------------------------------------------------
\* what the definitions mean
NamesOf(s) == {s.defs[k].name : k \in 1..Len(s.defs)}
FirstDef(s, n) == s.defs[Least({k \in 1..Len(s.defs) : s.defs[k].name = n}, 0)]
RECURSIVE AltsFrom(_, _, _)
AltsFrom(s, n, k) == IF k > Len(s.defs) THEN <<>> ELSE (IF s.defs[k].name = n THEN s.defs[k].alts ELSE <<>>) \o AltsFrom(s, n, k + 1)
Alts(s, n) == AltsFrom(s, n, 1)
Mentioned(s, R) == UNION {s.defs[k].uses : k \in {k \in 1..Len(s.defs) : s.defs[k].name \in R}}
RECURSIVE ReachedFrom(_, _, _)
ReachedFrom(s, R, new) == IF new = {} THEN R
  ELSE CHOOSE x \in {ReachedFrom(s, R \cup Q, Q) : Q \in {Mentioned(s, new) \ R}} : TRUE
Reached(s, n) == ReachedFrom(s, {n}, {n})
\* between each two neighbours stands the ignored production
Weave(a, x) == [k \in 1..(IF a = <<>> THEN 0 ELSE 2 * Len(a) - 1) |-> IF k % 2 = 1 THEN a[(k + 1) \div 2] ELSE N(x)]
Setting(s, n) == FirstDef(s, n).ign
Woven(s, n) == LET a == Alts(s, n) IN
  IF Setting(s, n) = <<>> \/ n \in Reached(s, Setting(s, n)[1]) THEN a
  ELSE [k \in 1..Len(a) |-> Weave(a[k], Setting(s, n)[1])]
Ignoring(s) == \E n \in NamesOf(s) : Setting(s, n) # <<>>
\* an ignored production that (or a part of which) is never defined: whether that is noticed here or later is left open
Dangling(s) == \E n \in NamesOf(s) : Setting(s, n) # <<>> /\ ~(Reached(s, Setting(s, n)[1]) \subseteq NamesOf(s))
=============================================================================
