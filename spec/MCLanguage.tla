------------------------------ MODULE MCLanguage ----------------------------
(* Chosen languages on all short scripts: the state and the output are what is written beside them, for accepted scripts
   and for rejected ones, whose instructions ran up to the error. *)
EXTENDS Language, TLC
CONSTANTS MaxLen, Alphabet
\* start -> d r {PrintReg;}; r -> d r | #; d -> "1" | "2" | "9" {PushReg; PushFromTree; PopToReg; Add; PopToReg;};
Sum == <<115, 116, 97, 114, 116, 32, 45, 62, 32, 100, 32, 114, 32, 123, 80, 114, 105, 110, 116, 82, 101, 103, 59, 125, 59, 32, 114, 32, 45, 62, 32, 100, 32, 114, 32, 124, 32, 35, 59, 32, 100, 32, 45, 62, 32, 34, 49, 34, 32, 124, 32, 34, 50, 34, 32, 124, 32, 34, 57, 34, 32, 123, 80, 117, 115, 104, 82, 101, 103, 59, 32, 80, 117, 115, 104, 70, 114, 111, 109, 84, 114, 101, 101, 59, 32, 80, 111, 112, 84, 111, 82, 101, 103, 59, 32, 65, 100, 100, 59, 32, 80, 111, 112, 84, 111, 82, 101, 103, 59, 125, 59>>
\* start -> "(" start ")" | "1" {RegAddConst 1; PushReg; PrintError;};
Nest == <<115, 116, 97, 114, 116, 32, 45, 62, 32, 34, 40, 34, 32, 115, 116, 97, 114, 116, 32, 34, 41, 34, 32, 124, 32, 34, 49, 34, 32, 123, 82, 101, 103, 65, 100, 100, 67, 111, 110, 115, 116, 32, 49, 59, 32, 80, 117, 115, 104, 82, 101, 103, 59, 32, 80, 114, 105, 110, 116, 69, 114, 114, 111, 114, 59, 125, 59>>
\* start -> number print; print -> ";" {}; number-> digit number_s {}; number_s -> number_s_ | # {}; number_s_ -> digit number_s {}; digit -> "1"|"2"|"9" {};
Num == <<115, 116, 97, 114, 116, 32, 45, 62, 32, 110, 117, 109, 98, 101, 114, 32, 112, 114, 105, 110, 116, 59, 32, 112, 114, 105, 110, 116, 32, 45, 62, 32, 34, 59, 34, 32, 123, 125, 59, 32, 110, 117, 109, 98, 101, 114, 45, 62, 32, 100, 105, 103, 105, 116, 32, 110, 117, 109, 98, 101, 114, 95, 115, 32, 123, 125, 59, 32, 110, 117, 109, 98, 101, 114, 95, 115, 32, 45, 62, 32, 110, 117, 109, 98, 101, 114, 95, 115, 95, 32, 124, 32, 35, 32, 123, 125, 59, 32, 110, 117, 109, 98, 101, 114, 95, 115, 95, 32, 45, 62, 32, 100, 105, 103, 105, 116, 32, 110, 117, 109, 98, 101, 114, 95, 115, 32, 123, 125, 59, 32, 100, 105, 103, 105, 116, 32, 45, 62, 32, 34, 49, 34, 124, 34, 50, 34, 124, 34, 57, 34, 32, 123, 125, 59>>
\* start -> "1" start {Sub;} | # {PushConst 7;};
Lost == <<115, 116, 97, 114, 116, 32, 45, 62, 32, 34, 49, 34, 32, 115, 116, 97, 114, 116, 32, 123, 83, 117, 98, 59, 125, 32, 124, 32, 35, 32, 123, 80, 117, 115, 104, 67, 111, 110, 115, 116, 32, 55, 59, 125, 59>>
\* start -> x "9"; x -> "1" {Add; PushConst 9223372036854775807; PopToReg; RegAddConst 1;};
Under == <<115, 116, 97, 114, 116, 32, 45, 62, 32, 120, 32, 34, 57, 34, 59, 32, 120, 32, 45, 62, 32, 34, 49, 34, 32, 123, 65, 100, 100, 59, 32, 80, 117, 115, 104, 67, 111, 110, 115, 116, 32, 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55, 59, 32, 80, 111, 112, 84, 111, 82, 101, 103, 59, 32, 82, 101, 103, 65, 100, 100, 67, 111, 110, 115, 116, 32, 49, 59, 125, 59>>
\* start -> "1" {PushConst;};
BadIns == <<115, 116, 97, 114, 116, 32, 45, 62, 32, 34, 49, 34, 32, 123, 80, 117, 115, 104, 67, 111, 110, 115, 116, 59, 125, 59>>
\* start -> d d; d -> "1" {PushConst 1;}; d -> "2" {PushConst 2;};
Twice == <<115, 116, 97, 114, 116, 32, 45, 62, 32, 100, 32, 100, 59, 32, 100, 32, 45, 62, 32, 34, 49, 34, 32, 123, 80, 117, 115, 104, 67, 111, 110, 115, 116, 32, 49, 59, 125, 59, 32, 100, 32, 45, 62, 32, 34, 50, 34, 32, 123, 80, 117, 115, 104, 67, 111, 110, 115, 116, 32, 50, 59, 125, 59>>
MachineLo(kind) == VM!MachineLo(kind)
MachineHi(kind) == VM!MachineHi(kind)
VARIABLES kind, lang, script
VARIABLE chosen
Init == /\ script = <<>> /\ chosen = FALSE
        /\ \E l \in {<<"sum", "stack", Sum>>, <<"nest", "stack", Nest>>, <<"num", "simple", Num>>, <<"under", "stack", Under>>, <<"twice", "stack", Twice>>, <<"bad", "stack", BadIns>>, <<"bad", "stack", Lost>>, <<"plain", "simple", BadIns>>} :
             lang = l[1] /\ kind = l[2] /\ LangInit(l[3])
Next == /\ UNCHANGED <<kind, lang>>
        /\ IF phase = "script" /\ ~chosen
           THEN chosen' = TRUE /\ script' \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen} /\ Again(script', TRUE)
           ELSE LangNext(kind) /\ UNCHANGED <<script, chosen>>
mcvars == <<langvars, kind, lang, script, chosen>>
MCSpec == Init /\ [][Next]_mcvars /\ WF_mcvars(Next)
Digits(w) == SelectSeq(w, LAMBDA x : x \in 48..57)
SumOf(w) == FoldLeft(LAMBDA a, x : a + x - 48, 0, w)
NumOf(w) == FoldLeft(LAMBDA a, x : a * 10 + x - 48, 0, w)
\* the longest beginning of digits
Lead == LET n == CHOOSE n \in 0..Len(script) : (n = Len(script) \/ script[n + 1] \notin 48..57) /\ \A k \in 1..n : script[k] \in 48..57 IN SubSeq(script, 1, n)
Numeral == Len(script) > 1 /\ Digits(script) = SubSeq(script, 1, Len(script) - 1) /\ script[Len(script)] = 59
Depth == CHOOSE n \in 0..Len(script) : (n = Len(script) \/ script[n + 1] # 40) /\ \A k \in 1..n : script[k] = 40
Close == LET k == Depth + 2 IN CHOOSE n \in 0..Len(script) : (k + n - 1 = Len(script) \/ k + n - 1 > Len(script) \/ script[k + n] # 41 \/ n = Depth) /\ \A j \in 1..n : script[k + j - 1] = 41
Reached == Depth < Len(script) /\ script[Depth + 1] = 49
I(n) == VM!OfInt(n)
State(st, reg, reg2, err) == m = [stack |-> st, reg |-> reg, reg2 |-> reg2, err |-> err]
Right == phase = "done" =>
  CASE lang = "sum" -> /\ (status = "zero") = (script # <<>> /\ Digits(script) = script)
                       /\ State(<<>>, I(SumOf(Lead)), I(0), 0)
                       /\ printed = IF status = "zero" THEN VM!Line(I(SumOf(Lead))) ELSE <<>>
    [] lang = "nest" -> LET n == IF ~Reached THEN 0 ELSE Close + 1 IN
                        /\ (status = "zero") = (Reached /\ Len(script) = 2 * Depth + 1 /\ Close = Depth)
                        /\ State([k \in 1..n |-> I(k)], I(n), I(0), 0) /\ printed = FoldLeft(LAMBDA a, k : a \o <<48, 10>>, <<>>, [k \in 1..n |-> k])
    [] lang = "num" -> /\ (status = "zero") = Numeral
                       /\ status = "zero" => State(<<>>, I(NumOf(Digits(script))), m.reg2, 0) /\ printed = VM!Line(I(NumOf(Digits(script))))
    [] lang = "under" -> LET ran == script # <<>> /\ script[1] = 49 IN
                         /\ (status = "zero") = (script = <<49, 57>>)
                         /\ IF ran THEN m.stack = <<>> /\ m.reg = MachineHi("stack") /\ m.err = 3 ELSE m = VM!Fresh
    [] lang = "twice" -> LET ok(k) == Len(script) >= k /\ \A j \in 1..k : script[j] \in {49, 50} IN
                         /\ (status = "zero") = (ok(2) /\ Len(script) = 2)
                         /\ m.stack = (IF ok(2) THEN <<I(1), I(1)>> ELSE IF ok(1) THEN <<I(1)>> ELSE <<>>)
    [] lang = "bad" -> status = "nonzero" /\ m = VM!Fresh
    [] lang = "plain" -> (status = "zero") = (script = <<49>>) /\ m = VM!Fresh
Sane == m.err \in 0..3 /\ todo # <<>> => phase = "script" /\ node \in 1..made
Moves == phase # "done" => ENABLED Next
Ends == <>(phase = "done")
=============================================================================
