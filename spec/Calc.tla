--------------------------------- MODULE Calc -------------------------------
(* The calculator language of the examples: numbers, +, - and print separated by single blanks, and its postfix meaning.
   State while reading the script w: at (characters read), mode ("term": a term has to start here, "number": in a number,
   "end": after a term, "accept", "reject"), num (the number being read), st (the values, the top last), out (what was
   printed), sure: whether every operation so far had its operands and stayed within the machine's integers. *)
EXTENDS StackVm
PRINT == <<112, 114, 105, 110, 116>>
IsDig(x) == x \in 48..57
Ch(w, i) == IF i < Len(w) THEN w[i + 1] ELSE 0 - 1
HasPrint(w, i) == i + 5 <= Len(w) /\ SubSeq(w, i + 1, i + 5) = PRINT
CStart == [at |-> 0, mode |-> "term", num |-> <<>>, st |-> <<>>, out |-> <<>>, sure |-> TRUE]
To(s, n, mode) == [s EXCEPT !.at = n, !.mode = mode]
Unsure(s) == [s EXCEPT !.sure = FALSE]
Take(s) == s.st[Len(s.st)]
Less(s, n) == SubSeq(s.st, 1, Len(s.st) - n)
Value(kind, s, n) == IF Fits(kind, n) THEN [s EXCEPT !.st = Append(@, n)] ELSE Unsure(s)
Operate(kind, s, op) ==
  IF ~s.sure THEN s
  ELSE IF op = "print" THEN IF s.st = <<>> THEN Unsure(s) ELSE [s EXCEPT !.out = @ \o Line(Take(s)), !.st = Less(s, 1)]
  ELSE IF Len(s.st) < 2 THEN Unsure(s)
  ELSE LET b == Take(s)  a == s.st[Len(s.st) - 1] IN
       Value(kind, [s EXCEPT !.st = Less(s, 2)], IF op = "+" THEN Plus(a, b) ELSE Minus2(a, b))
Number(kind, s) == IF s.sure THEN Value(kind, [s EXCEPT !.num = <<>>], OfDigits(0, s.num)) ELSE s
CStep(kind, w, s) ==
  LET x == Ch(w, s.at) IN
  CASE s.mode = "term" -> IF x = 43 THEN To(Operate(kind, s, "+"), s.at + 1, "end")
                          ELSE IF x = 45 THEN To(Operate(kind, s, "-"), s.at + 1, "end")
                          ELSE IF HasPrint(w, s.at) THEN To(Operate(kind, s, "print"), s.at + 5, "end")
                          ELSE IF IsDig(x) THEN To([s EXCEPT !.num = <<x>>], s.at + 1, "number") ELSE To(s, s.at, "reject")
    [] s.mode = "number" -> IF IsDig(x) THEN To([s EXCEPT !.num = Append(@, x)], s.at + 1, "number") ELSE To(Number(kind, s), s.at, "end")
    [] s.mode = "end" -> IF s.at = Len(w) THEN To(s, s.at, "accept") ELSE IF x = 32 THEN To(s, s.at + 1, "term") ELSE To(s, s.at, "reject")
COver(s) == s.mode \in {"accept", "reject"}
=============================================================================
