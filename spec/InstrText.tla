------------------------------ MODULE InstrText -----------------------------
(* The instruction section of the stack VM (its text w) read one lexeme at a time, and the instructions the simple stack
   VM has for a production. A constant is a text of decimal digits without leading zeros. *)
EXTENDS Scan, Decimals, TLC
\* the names, as texts
Known ==
  <<65, 100, 100>> :> "Add" @@
  <<83, 117, 98>> :> "Sub" @@
  <<68, 105, 103, 105, 116>> :> "Digit" @@
  <<80, 111, 112, 84, 111, 82, 101, 103>> :> "PopToReg" @@
  <<80, 111, 112, 84, 111, 82, 101, 103, 50>> :> "PopToReg2" @@
  <<80, 111, 112, 68, 105, 115, 99, 97, 114, 100>> :> "PopDiscard" @@
  <<80, 117, 115, 104, 70, 114, 111, 109, 84, 114, 101, 101>> :> "PushFromTree" @@
  <<80, 117, 115, 104, 82, 101, 103>> :> "PushReg" @@
  <<80, 117, 115, 104, 82, 101, 103, 50>> :> "PushReg2" @@
  <<80, 114, 105, 110, 116, 82, 101, 103>> :> "PrintReg" @@
  <<80, 114, 105, 110, 116, 82, 101, 103, 50>> :> "PrintReg2" @@
  <<80, 114, 105, 110, 116, 69, 114, 114, 111, 114>> :> "PrintError" @@
  <<82, 101, 103, 65, 100, 100, 67, 111, 110, 115, 116>> :> "RegAddConst" @@
  <<80, 117, 115, 104, 67, 111, 110, 115, 116>> :> "PushConst" @@
  <<80, 111, 119>> :> "Pow"
WithNumber == {"RegAddConst", "PushConst", "Pow"}
\* the constants of Pow may use the whole unsigned range
Largest(name) == IF name = "Pow" THEN MaxUsize ELSE MaxIsize
DigitsTo(w, i) == Least({j \in i..(Len(w) - 1) : ~IsDigit(w[j + 1])}, Len(w))
IStart == [at |-> 0, mode |-> "gap", now |-> <<>>, ins |-> <<>>]
IStep(w, s) ==
  LET i == s.at
      p == Sp(w, i)
      e == NameTo(w, i)
      name == Known[Cut(w, i, e)]
      q == DigitsTo(w, p)
      n == Canon(Cut(w, p, q))
  IN
  CASE s.mode = "gap" -> [s EXCEPT !.at = p, !.mode = IF p = Len(w) THEN "accept" ELSE "name"]
    [] s.mode = "name" -> IF ~AtName(w, i) THEN [s EXCEPT !.mode = "reject"]
                          ELSE IF Cut(w, i, e) \notin DOMAIN Known THEN [s EXCEPT !.at = e, !.mode = ";", !.now = <<>>]
                          ELSE [s EXCEPT !.at = e, !.mode = IF name \in WithNumber THEN "number" ELSE ";", !.now = <<name>>]
    [] s.mode = "number" -> IF q = p \/ ~NumLE(n, Largest(s.now[1])) THEN [s EXCEPT !.mode = "reject", !.at = p]
                            ELSE [s EXCEPT !.at = q, !.mode = ";", !.now = Append(@, n)]
    [] s.mode = ";" -> IF Ch(w, i) = 59 THEN [s EXCEPT !.at = i + 1, !.mode = "gap", !.ins = IF s.now = <<>> THEN @ ELSE Append(@, s.now)]
                       ELSE [s EXCEPT !.mode = "reject"]
IOver(s) == s.mode \in {"accept", "reject"}
\* the simple stack VM
ByName ==
  <<97, 100, 100>> :> <<<<"PopToReg">>, <<"Add">>>> @@
  <<115, 117, 98>> :> <<<<"PopToReg">>, <<"Sub">>>> @@
  <<110, 117, 109, 98, 101, 114>> :> <<<<"PopDiscard">>>> @@
  <<100, 105, 103, 105, 116>> :> <<<<"PushFromTree">>, <<"PushConst", <<49>>>>>> @@
  <<110, 117, 109, 98, 101, 114, 95, 115, 95>> :> <<<<"PopToReg">>, <<"PopToReg2">>, <<"PopDiscard">>, <<"Pow", <<49, 48>>>>, <<"RegAddConst", <<49>>>>, <<"PushReg">>>> @@
  <<112, 114, 105, 110, 116>> :> <<<<"PopToReg">>, <<"PrintReg">>>>
SimpleFor(prod) == IF prod \in DOMAIN ByName THEN ByName[prod] ELSE <<>>
=============================================================================
