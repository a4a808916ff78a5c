------------------------------ MODULE TreeParser ----------------------------
(* The parser of Parser.tla together with the tree of Tree.tla that it builds and that the instructions it runs may alter.
   An instruction is a record [who, n, what, d]: it does what ("set" data, "rm" the branch, "add" a child with data d,
   "keep" the handle, "addkeep" both) to the node of its match ("cur"), to the n-th child of that ("kid"), to the node
   whose handle was kept earlier ("kept"), or to none ("top": added nodes have no parent).
   The node the parser makes as number n has the handle <<n>>, those made by instructions have <<0, k>>. *)
EXTENDS Parser
VARIABLES f, used,  \* the tree
          todo,     \* instructions still to run, now
          cur,      \* their node
          kept      \* the handle an instruction has put aside
Tr == INSTANCE Tree
None == Tr!None
evars == <<f, used, todo, cur, kept>>
EInit == Tr!TreeInit /\ todo = <<>> /\ cur = None /\ kept = None

\* the parser only adds below productions that are being matched
Above == {i \in 1..(Len(stack) - 1) : stack[i].done}
Parent == IF Above = {} THEN None ELSE <<stack[CHOOSE i \in Above : \A j \in Above : j <= i].node>>
EPredict(tab, w) == todo = <<>> /\ Predict(tab, w) /\ Tr!Add(Parent, <<>>, <<made + 1>>) /\ UNCHANGED <<todo, cur, kept>>
EMatch(w) == todo = <<>> /\ AtTerminal /\ Match(w) /\ Tr!Add(Parent, Top.sym[2], <<made + 1>>) /\ UNCHANGED <<todo, cur, kept>>
EComplete(inst) == todo = <<>> /\ Complete /\ todo' = inst[Top.sym[2]] /\ cur' = <<Top.node>> /\ UNCHANGED <<f, used, kept>>
EEnd(tab, w) == todo = <<>> /\ (Accept(w) \/ Reject(tab, w)) /\ UNCHANGED evars

O == Head(todo)
Target == CASE O.who = "cur" -> cur
            [] O.who = "kid" -> IF O.n < Len(Tr!Kids(cur)) THEN Tr!Kids(cur)[O.n + 1] ELSE None
            [] O.who = "kept" -> kept
            [] O.who = "top" -> None
New == <<0, Cardinality(used)>>
Works == IF O.who = "top" THEN O.what \in {"add", "addkeep"} ELSE Target \in Tr!Live
\* one instruction; without the node it is about nothing happens
Instruct ==
  /\ todo # <<>> /\ todo' = Tail(todo)
  /\ CASE ~Works -> UNCHANGED <<f, used, kept>>
       [] Works /\ O.what = "set" -> Tr!SetData(Target, O.d) /\ UNCHANGED kept
       [] Works /\ O.what = "rm" -> Tr!Remove(Target) /\ UNCHANGED kept
       [] Works /\ O.what = "keep" -> kept' = Target /\ UNCHANGED <<f, used>>
       [] Works /\ O.what \in {"add", "addkeep"} -> Tr!Add(Target, O.d, New) /\ kept' = IF O.what = "addkeep" THEN New ELSE kept
  /\ UNCHANGED <<pos, stack, made, out, cur>>

ENext(tab, w, inst) == EPredict(tab, w) \/ EMatch(w) \/ EComplete(inst) \/ EEnd(tab, w) \/ Instruct

\* what is seen from a node: depth and data of it and all below it, in preorder
RECURSIVE View(_, _)
View(h, d) == IF h \notin Tr!Live THEN <<>> ELSE <<<<d, f[h].d>>>> \o FlattenSeq([i \in 1..Len(f[h].kids) |-> View(f[h].kids[i], d + 1)])

-----------------------------------------------------------------------------
\* whatever instructions do, the productions that are being matched stay in the tree
OpenStay == \A i \in 1..Len(stack) : stack[i].done => <<stack[i].node>> \in Tr!Live
\* what remains of the parser's nodes stands in derivation order, each below its own production
Numbers(h) == IF Len(h) = 1 THEN h[1] ELSE 0
KidsInOrder == \A h \in Tr!Live : LET ks == SelectSeq(f[h].kids, LAMBDA k : Len(k) = 1) IN
                 /\ \A i \in 1..(Len(ks) - 1) : Numbers(ks[i]) < Numbers(ks[i + 1])
                 /\ Len(h) = 1 => \A i \in 1..Len(ks) : Numbers(h) < Numbers(ks[i])
=============================================================================
