----------------------------- MODULE TraceCursor ----------------------------
(* Recorded uses of views. A case has its text, the outermost view and steps; every step logs the position afterwards
   (p) and, if it delivers a character, r = <<character>> or <<>>. *)
EXTENDS Cursor, Chars, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
E == Cases[c].steps[i]
Ev(op) == i <= Len(Cases[c].steps) /\ E.op = op /\ i' = i + 1
Init == /\ i = 1 /\ c \in 1..Len(Cases) /\ txt = Cases[c].text /\ at = 0
        /\ views = <<View(Cases[c].stop, Cases[c].esc, Cases[c].pos)>>
Delivered == E.r = Shows
Pos == E.p = views'[Len(views')].pos
TNext == Ev("next") /\ Delivered /\ (IF Shows = <<>> THEN Look ELSE Consume)
TPeek == (Ev("peek") \/ Ev("peekm")) /\ Delivered /\ Look
\* a conditional step: the condition is "one of / none of the characters in cs"
Holds == Shows # <<>> /\ ((\E k \in 1..Len(E.cs) : E.cs[k] = Shows[1]) = E.want)
TIf == Ev("nif") /\ E.r = (IF Holds THEN Shows ELSE <<>>) /\ ConsumeIf(Holds)
TEq == Ev("neq") /\ E.r = (IF Shows = E.cs THEN Shows ELSE <<>>) /\ ConsumeIf(Shows = E.cs)
TOpen == Ev("open") /\ Open(E.stop, E.esc, E.at)
TClose == Ev("close") /\ Close
Finish == i = Len(Cases[c].steps) + 1 /\ Cases[c].end = "ok" /\ PrintT(<<"OK", c>>) /\ i' = i + 1 /\ Look
Next == (((TNext \/ TPeek \/ TIf \/ TEq \/ TOpen \/ TClose) /\ Pos) \/ Finish) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<txt, at, views, c, i>>
=============================================================================
