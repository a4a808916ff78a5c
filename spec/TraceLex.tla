------------------------------- MODULE TraceLex -----------------------------
(* Recorded readings. Each step logs the reader, its outcome, and the position and character shown afterwards. *)
EXTENDS Lex, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
E == Cases[c].steps[i]
N == Len(Cases[c].steps)
Init == /\ i = 1 /\ c \in 1..Len(Cases) /\ txt = Cases[c].text /\ at = 0
        /\ views = (IF Cases[c].nested THEN <<View(No, No, Cases[c].pos)>> ELSE <<>>) \o <<View(Cases[c].stop, Cases[c].esc, Cases[c].pos)>>
        /\ \A k \in 1..Len(txt) : KnownChar(txt[k])
Expected(s) == CASE E.op = "ws" -> Space(s)
                 [] E.op = "digits" -> Digits(s)
                 [] E.op = "usize" -> Unsigned(s)
                 [] E.op = "isize" -> Signed(s)
                 [] E.op = "sym" -> Symbol(s, E.c)
                 [] E.op = "name" -> Name(s)
                 [] E.op = "quoted" -> Quoted(s)
\* a number that is too large is an error; what else has been consumed then is left open
TooBig(x) == ~x.ok /\ x.err = <<>>
\* E.err = <<position, character>> or <<position>> at the end of the text or <<>> for any other error
ErrOK(x) == IF x.err[2] = No THEN E.err = <<x.err[1]>> ELSE E.err = x.err
Read == /\ i <= N
        /\ \E s \in {Ahead} : \E x \in {Expected(s)} :
           /\ E.ok = x.ok
           /\ IF TooBig(x) THEN i' = N + 1 /\ Look
              ELSE /\ IF E.ok THEN E.val = x.val ELSE ErrOK(x)
                   /\ ConsumeMany(x.n)
                   /\ E.p = views'[Len(views')].pos
                   /\ E.s = ShowsAt(at', views')
                   /\ i' = i + 1
Finish == i = N + 1 /\ Cases[c].end = "ok" /\ PrintT(<<"OK", c>>) /\ i' = i + 1 /\ Look
Next == (Read \/ Finish) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<txt, at, views, c, i>>
=============================================================================
