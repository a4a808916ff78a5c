-------------------------------- MODULE Cursor ------------------------------
(* Views of a text (peekables::ParseProcess). A view may be opened on a view; only the innermost one is used until it is
   closed, and everything consumed through it is consumed by the views around it. A view with a stop character ends
   before the first stop character that does not directly follow an escape character consumed through that view. *)
EXTENDS Naturals, Sequences
VARIABLES txt,    \* the text: Seq of code points
          at,     \* number of characters consumed so far
          views   \* outermost first: [stop, esc: code point or No, pos: reported position, armed: last consumed was esc]
cvars == <<txt, at, views>>

No == 0 - 1
View(stop, esc, pos) == [stop |-> stop, esc |-> esc, pos |-> pos, armed |-> FALSE]
Top == views[Len(views)]

Blocks(v, ch) == v.stop # No /\ ch = v.stop /\ ~v.armed
\* what the innermost view shows at text offset a when the views are vs: <<>> or <<character>>
ShowsAt(a, vs) == IF a >= Len(txt) THEN <<>>
                  ELSE IF \E k \in 1..Len(vs) : Blocks(vs[k], txt[a + 1]) THEN <<>> ELSE <<txt[a + 1]>>
Shows == ShowsAt(at, views)
After(vs, ch) == [k \in 1..Len(vs) |-> [vs[k] EXCEPT !.pos = @ + 1, !.armed = (vs[k].esc # No /\ ch = vs[k].esc)]]

Open(stop, esc, pos) == views' = Append(views, View(stop, esc, pos)) /\ UNCHANGED <<txt, at>>
Close == Len(views) > 1 /\ views' = SubSeq(views, 1, Len(views) - 1) /\ UNCHANGED <<txt, at>>
Consume == Shows # <<>> /\ at' = at + 1 /\ views' = After(views, Shows[1]) /\ UNCHANGED txt
Look == UNCHANGED cvars
\* consume exactly when the condition holds for the character shown
ConsumeIf(holds) == IF Shows # <<>> /\ holds THEN Consume ELSE Look

-----------------------------------------------------------------------------
\* where view v, as it is now, ends: at the first stop character that is not armed
StopOf(v) == LET S == {j \in (at + 1)..Len(txt) : txt[j] = v.stop /\ ~(IF j = at + 1 THEN v.armed ELSE txt[j - 1] = v.esc)}
             IN IF v.stop = No \/ S = {} THEN Len(txt) ELSE (CHOOSE j \in S : \A m \in S : j <= m) - 1
\* everything the innermost view would still deliver
Ahead == LET ends == {StopOf(views[k]) : k \in 1..Len(views)} IN SubSeq(txt, at + 1, CHOOSE e \in ends : \A m \in ends : e <= m)
\* the views once the first n characters ahead are consumed
Many(n) == [k \in 1..Len(views) |-> IF n = 0 THEN views[k] ELSE
             [views[k] EXCEPT !.pos = @ + n, !.armed = (views[k].esc # No /\ txt[at + n] = views[k].esc)]]
ConsumeMany(n) == n <= Len(Ahead) /\ at' = at + n /\ views' = Many(n) /\ UNCHANGED txt
=============================================================================
