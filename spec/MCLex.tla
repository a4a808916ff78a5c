-------------------------------- MODULE MCLex -------------------------------
(* The readers on all short texts: longest match, nothing more, and number values by value instead of by digits. *)
EXTENDS Lex, TLC
CONSTANTS MaxLen, Alphabet
MCInit == /\ txt \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
          /\ at = 0 /\ \E s \in {No, 125} : views = <<View(s, No, 0)>>
MCSpec == MCInit /\ [][FALSE]_cvars
RECURSIVE ValueOf(_)
ValueOf(d) == IF d = <<>> THEN 0 ELSE ValueOf(SubSeq(d, 1, Len(d) - 1)) * 10 + (d[Len(d)] - 48)
Inside(r) == r.n <= Len(Ahead) /\ r.n >= 0
Longest == /\ LET r == Digits(Ahead) IN Inside(r) /\ (r.n < Len(Ahead) => ~IsDigit(Ahead[r.n + 1])) /\ \A k \in 1..r.n : IsDigit(Ahead[k])
           /\ LET r == Name(Ahead) IN r.ok => Inside(r) /\ r.n > 0 /\ (r.n < Len(Ahead) => ~IsNameChar(Ahead[r.n + 1]))
           /\ LET r == Space(Ahead) IN Inside(r) /\ (r.n < Len(Ahead) => ~IsSpace(Ahead[r.n + 1]))
FailsClean == \A r \in {Unsigned(Ahead), Signed(Ahead), Name(Ahead), Symbol(Ahead, 97)} :
                ~r.ok => Inside(r) /\ r.n <= 1 /\ (r.n = 1 => Ahead[1] = 45)
                         /\ r.err[1] = r.n /\ (r.err[2] = No) = (r.n = Len(Ahead)) /\ (r.err[2] # No => r.err[2] = Ahead[r.n + 1])
Values == /\ LET r == Unsigned(Ahead) IN r.ok => ValueOf(r.val) = ValueOf(SubSeq(Ahead, 1, r.n)) /\ (Len(r.val) > 1 => r.val[1] # 48)
          /\ LET r == Signed(Ahead) IN r.ok /\ Ahead[1] = 45 => (r.val = <<48>> \/ (r.val[1] = 45 /\ ValueOf(Tail(r.val)) = ValueOf(SubSeq(Ahead, 2, r.n))))
\* the same by reading one character at a time
RECURSIVE Scan(_, _, _)
Scan(s, k, kept) == IF k > Len(s) THEN 0 ELSE IF s[k] = 34 /\ ~kept THEN k ELSE Scan(s, k + 1, s[k] = 92 /\ ~kept)
QuotedByScan == LET r == Quoted(Ahead) IN
  IF Ahead = <<>> \/ Ahead[1] # 34 THEN r = Fail(0, Ahead, 0)
  ELSE LET k == Scan(Ahead, 2, FALSE) IN r.ok = (k # 0) /\ r.n = (IF k = 0 THEN Len(Ahead) ELSE k) /\ (r.ok => r.val = SubSeq(Ahead, 2, k - 1))
=============================================================================
