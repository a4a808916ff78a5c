------------------------------ MODULE MCCursor ------------------------------
(* All uses of up to three nested views on all short texts. start remembers where each view was opened, so that its end
   can be said without following it character by character. *)
EXTENDS Cursor, TLC
CONSTANTS MaxLen, Alphabet
Stops == {No, 125, 97}
Escs == {No, 92}
VARIABLE start
MCInit == /\ txt \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
          /\ at = 0 /\ \E s \in Stops, e \in Escs : views = <<View(s, e, 3)>>
          /\ start = <<[at |-> 0, pos |-> 3]>>
MCNext == \/ Consume /\ UNCHANGED start
          \/ Len(views) < 3 /\ \E s \in Stops, e \in Escs : Open(s, e, Top.pos) /\ start' = Append(start, [at |-> at, pos |-> Top.pos])
          \/ Close /\ start' = SubSeq(start, 1, Len(start) - 1)
MCSpec == MCInit /\ [][MCNext]_<<txt, at, views, start>>
\* the first stop character from where the view was opened that does not directly follow a consumed escape character
Ends(k) == {j \in start[k].at..(Len(txt) - 1) :
              txt[j + 1] = views[k].stop /\ ~(j > start[k].at /\ views[k].esc # No /\ txt[j] = views[k].esc)}
EndOf(k) == IF Ends(k) = {} THEN Len(txt) ELSE CHOOSE j \in Ends(k) : \A m \in Ends(k) : j <= m
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Limit == Min({EndOf(k) : k \in 1..Len(views)})
Bounded == at <= Limit
ShowsRight == Shows = IF at < Limit THEN <<txt[at + 1]>> ELSE <<>>
PositionsRight == \A k \in 1..Len(views) : views[k].pos = start[k].pos + (at - start[k].at)
\* delivering one character after the other comes to the same
RECURSIVE AheadFrom(_, _)
AheadFrom(a, vs) == LET s == ShowsAt(a, vs) IN IF s = <<>> THEN <<>> ELSE s \o AheadFrom(a + 1, After(vs, s[1]))
RECURSIVE AfterAll(_, _)
AfterAll(vs, s) == IF s = <<>> THEN vs ELSE AfterAll(After(vs, Head(s)), Tail(s))
OneByOne == /\ Ahead = AheadFrom(at, views)
            /\ \A n \in 0..Len(Ahead) : Many(n) = AfterAll(views, SubSeq(txt, at + 1, at + n))
AheadRight == Ahead = SubSeq(txt, at + 1, Limit)
=============================================================================
