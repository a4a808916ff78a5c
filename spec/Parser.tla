-------------------------------- MODULE Parser ------------------------------
(* The predictive parser of a usable grammar (script_parser) as a pushdown machine on a script w.
   Its tree is known by its nodes in preorder, each <<depth, text>>: nodes are only ever added at the end of that list. *)
EXTENDS LL1, SequencesExt
VARIABLES pos,    \* characters matched
          stack,  \* what is still to come, the next item last: a symbol with its depth, or "done": production and its node
          made,   \* number of nodes made
          out     \* "run", then "accept" or "reject" (pos is then the place of the error)
pvars == <<pos, stack, made, out>>

\* the parse table: for each production the alternative (reversed) for each lookahead
TableOf(g, S) == [k \in Prods(g) |-> [x \in Steuer(S, k) |-> Reverse(CHOOSE a \in Predicted(g, S, k, x) : TRUE)]]

Item(sym, d) == [done |-> FALSE, sym |-> sym, d |-> d]
Done(k, node, d) == [done |-> TRUE, sym |-> <<"n", k>>, node |-> node, d |-> d]
Top == stack[Len(stack)]
Rest0 == SubSeq(stack, 1, Len(stack) - 1)
Look(w) == IF pos < Len(w) THEN w[pos + 1] ELSE End

Begin(start) == pos' = 0 /\ stack' = <<Item(<<"n", start>>, 0)>> /\ made' = 0 /\ out' = "run"
AtProduction == out = "run" /\ stack # <<>> /\ ~Top.done /\ Top.sym[1] = "n"
AtTerminal == out = "run" /\ stack # <<>> /\ ~Top.done /\ Top.sym[1] = "t"
AtDone == out = "run" /\ stack # <<>> /\ Top.done
CanPredict(tab, w) == AtProduction /\ Look(w) \in DOMAIN tab[Top.sym[2]]
NewNode == <<Top.d, IF Top.sym[1] = "t" THEN Top.sym[2] ELSE <<>>>>

\* a production is replaced by the alternative its table has for the lookahead
Predict(tab, w) ==
  /\ CanPredict(tab, w)
  /\ LET a == tab[Top.sym[2]][Look(w)] IN
     stack' = Rest0 \o <<Done(Top.sym[2], made + 1, Top.d)>> \o [i \in 1..Len(a) |-> Item(a[i], Top.d + 1)]
  /\ made' = made + 1 /\ UNCHANGED <<pos, out>>
\* how much of terminal text t the script has here
Agree(t, w, m) == IF SubSeq(t, 1, m) = SubSeq(w, pos + 1, pos + m) THEN m
                  ELSE LET differ == {n \in 1..m : t[n] # w[pos + n]} IN (CHOOSE n \in differ : \A o \in differ : n <= o) - 1
Common(t, w) == Agree(t, w, IF Len(t) <= Len(w) - pos THEN Len(t) ELSE Len(w) - pos)
Match(w) == /\ AtTerminal /\ Common(Top.sym[2], w) = Len(Top.sym[2])
            /\ pos' = pos + Len(Top.sym[2]) /\ stack' = Rest0 /\ made' = made + 1 /\ UNCHANGED out
\* a production is matched: its instructions run now, with its node, on a tree of the nodes made so far
Complete == AtDone /\ stack' = Rest0 /\ UNCHANGED <<pos, made, out>>
Accept(w) == out = "run" /\ stack = <<>> /\ pos = Len(w) /\ out' = "accept" /\ UNCHANGED <<pos, stack, made>>
Reject(tab, w) ==
  /\ out = "run"
  /\ IF stack = <<>> THEN pos < Len(w) /\ pos' = pos
     ELSE \/ AtProduction /\ ~CanPredict(tab, w) /\ pos' = pos
          \/ AtTerminal /\ Common(Top.sym[2], w) < Len(Top.sym[2]) /\ pos' = pos + Common(Top.sym[2], w)
  /\ out' = "reject" /\ UNCHANGED <<stack, made>>
=============================================================================
