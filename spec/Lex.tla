--------------------------------- MODULE Lex --------------------------------
(* The lexical readers (parse_funcs) on a view: each consumes the longest match of what lies ahead. An outcome is
   [n: characters consumed, ok, val: Seq of code points, err: <<position, character or No>> or <<>> (any error)]. *)
EXTENDS Cursor, Chars, Decimals

\* the last index of the run of Is-characters that starts at k
RunLen(s, k, Is(_)) == LET other == {j \in k..Len(s) : ~Is(s[j])} IN
                       IF other = {} THEN Len(s) ELSE (CHOOSE j \in other : \A m \in other : j <= m) - 1
Here == Top.pos
Ok(n, v) == [n |-> n, ok |-> TRUE, val |-> v, err |-> <<>>]
\* matching stopped after n characters
Fail(n, s, consumed) == [n |-> consumed, ok |-> FALSE, val |-> <<>>, err |-> <<Here + n, IF n < Len(s) THEN s[n + 1] ELSE No>>]

TooLarge(n) == [n |-> n, ok |-> FALSE, val |-> <<>>, err |-> <<>>]

Space(s) == Ok(RunLen(s, 1, IsSpace), <<>>)
Digits(s) == LET n == RunLen(s, 1, IsDigit) IN Ok(n, SubSeq(s, 1, n))
Unsigned(s) == LET n == RunLen(s, 1, IsDigit)  v == Canon(SubSeq(s, 1, n)) IN
               IF n = 0 THEN Fail(0, s, 0) ELSE IF NumLE(v, MaxUsize) THEN Ok(n, v) ELSE TooLarge(n)
Signed(s) ==
  LET neg == s # <<>> /\ s[1] = 45
      o == IF neg THEN 1 ELSE 0
      n == RunLen(s, o + 1, IsDigit) - o
      v == Canon(SubSeq(s, o + 1, o + n))
  IN IF n = 0 THEN Fail(o, s, o)
     ELSE IF ~NumLE(v, IF neg THEN MinIsize ELSE MaxIsize) THEN TooLarge(o + n)
     ELSE Ok(o + n, IF neg /\ v # <<48>> THEN <<45>> \o v ELSE v)
Symbol(s, ch) == IF s # <<>> /\ s[1] = ch THEN Ok(1, <<>>) ELSE Fail(0, s, 0)
Name(s) == IF s # <<>> /\ IsAlpha(s[1]) THEN LET n == RunLen(s, 2, IsNameChar) IN Ok(n, SubSeq(s, 1, n)) ELSE Fail(0, s, 0)
\* "..." in which a backslash keeps the character after it from closing; the text between the quotes is delivered as it stands
RECURSIVE Backslashes(_, _)
Backslashes(s, k) == IF k > 0 /\ s[k] = 92 THEN 1 + Backslashes(s, k - 1) ELSE 0
Kept(s, j) == Backslashes(s, j - 1) % 2 = 1
Quoted(s) == IF s = <<>> \/ s[1] # 34 THEN Fail(0, s, 0)
             ELSE LET closing == {j \in 2..Len(s) : s[j] = 34 /\ ~Kept(s, j)} IN
                  IF closing = {} THEN Fail(Len(s), s, Len(s))
                  ELSE LET j == CHOOSE j \in closing : \A m \in closing : j <= m IN Ok(j, SubSeq(s, 2, j - 1))
=============================================================================
