------------------------------ MODULE TraceTree -----------------------------
(* Is every recorded execution of tree::Tree a behaviour of Tree? Every recorded step is one action of Tree or one
   lookup, with the logged handle, data and answer. ASPECT = "handles" compares what a handle denotes,
   ASPECT = "structure" compares children, descendants and positions. *)
EXTENDS Tree, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Handles == IOEnv.ASPECT = "handles"
Structure == ~Handles

VARIABLES c, i
vars == <<f, used, c, i>>

Range(s) == {s[k] : k \in 1..Len(s)}
E == Cases[c].steps[i]
Ev(op) == i <= Len(Cases[c].steps) /\ E.op = op /\ i' = i + 1
Keep == UNCHANGED tvars
IsOk == E.r = "ok"

DescOK(h, got) == Len(got) = Cardinality(Range(got)) /\ \E D \in {Descendants(h)} : Range(got) = D

Init == TreeInit /\ i = 1 /\ c \in 1..Len(Cases)

TAdd == Ev("add") /\ IF IsOk THEN Add(E.h, E.d, E.v) /\ ~E.again ELSE AddRefused(E.h)
TRemove == Ev("rm") /\ IF IsOk THEN Remove(E.h) ELSE RemoveRefused(E.h)
TSet == Ev("set") /\ IF IsOk THEN SetData(E.h, E.d) ELSE SetRefused(E.h)
TGet == (Ev("get") \/ Ev("getm")) /\ Keep /\ IF E.h \in Live THEN IsOk /\ E.v = f[E.h].d ELSE ~IsOk
THas == Ev("has") /\ Keep /\ E.v = (E.h \in Live)
TKids ==
         /\ Ev("kids") /\ Keep
         /\ (Handles /\ E.h \notin Live) => (E.v = <<>>)
         /\ Structure => (E.v = Kids(E.h))
TDesc ==
         /\ Ev("desc") /\ Keep
         /\ (Handles /\ E.h \notin Live) => E.v = <<>>
         /\ Structure => DescOK(E.h, E.v)
TNth ==
         /\ Ev("nth") /\ Keep
         /\ IF E.h \notin Live THEN E.r = "err"
           ELSE LET w == Walk(E.h, <<E.n>>) IN
                Structure => (IF w = None THEN E.r = "none" /\ E.b = <<"none">>
                              ELSE E.r = "ok" /\ E.v = f[w].d /\ E.b = <<"ok", f[w].d>>)
TPath ==
         /\ Ev("path") /\ Keep
         /\ IF E.h \notin Live THEN E.r = "err"
            ELSE LET w == Walk(E.h, E.p) IN
                 Structure => (IF w = None THEN E.r = "none" ELSE E.r = "ok" /\ E.v = f[w].d)
\* everything at once, for every handle ever seen: [handle, exists, data or -1, children, descendants]
TAll ==
         /\ Ev("all") /\ Keep
         /\ \A k \in 1..Len(E.v) :
             LET x == E.v[k]  h == x[1] IN
             IF h \in Live
             THEN /\ x[2] = TRUE /\ x[3] = f[h].d
                  /\ Structure => (x[4] = f[h].kids /\ DescOK(h, x[5]))
             ELSE x[2] = FALSE /\ x[3] = 0 - 1 /\ x[4] = <<>> /\ x[5] = <<>>
\* E.n times Add and at once Remove of what was added: as many new handles, and everything else as before. (These handles
\* are not listed in used; the driver says in "again" whether one of them is given out once more.)
TChurn == /\ Ev("churn") /\ Keep /\ E.h \in {None} \cup Live
          /\ E.made = E.n /\ E.fresh = E.n /\ E.wrong = 0 /\ E.left = 0
TChurnRefused == /\ Ev("churn") /\ Keep /\ E.h \notin {None} \cup Live /\ E.made = 0
Finish == /\ i = Len(Cases[c].steps) + 1 /\ Cases[c].end = "ok"
          /\ PrintT(<<"OK", c>>) /\ i' = i + 1 /\ Keep

Next == (TAdd \/ TRemove \/ TSet \/ TGet \/ THas \/ TKids \/ TDesc \/ TNth \/ TPath \/ TAll \/ TChurn \/ TChurnRefused \/ Finish) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
