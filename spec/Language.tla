------------------------------- MODULE Language -----------------------------
(* A language made with the library: its rule text is read, its sections by the stack machine of the given kind, its
   grammar analysed, and scripts are parsed, each instruction running on the machine's state when its production is
   matched. Built on the tool's specification, which knows everything but the instructions. *)
EXTENDS Tool
CONSTANTS Lo(_), Hi(_)
VM == INSTANCE StackVm
IT == INSTANCE InstrText
VARIABLES i,      \* the state of the section reader
          code,   \* what the machine made of each section so far
          prog,   \* the instructions of each production
          kids,   \* for each node of the tree: <<>> or <<text of its first child>>
          todo,   \* the instructions to run now,
          node,   \* and their node
          m,      \* the machine's state
          printed
langvars == <<toolvars, i, code, prog, kids, todo, node, m, printed>>
reading == <<i, code, prog>>
running == <<kids, todo, node, m, printed>>
LangInit(rules) == /\ phase = "rules" /\ texts = <<rules, <<>>>> /\ s = RT!Start /\ g = <<>> /\ tab = <<>> /\ status = ""
                   /\ pos = 0 /\ stack = <<>> /\ made = 0 /\ out = "start"
                   /\ i = IT!IStart /\ code = <<>> /\ prog = <<>> /\ kids = <<>> /\ todo = <<>> /\ node = 0 /\ m = VM!Fresh /\ printed = <<>>
Asked == phase = "rules" /\ Len(s.calls) > Len(code)
Section == s.calls[Len(s.calls)]
Next0(ins) == code' = Append(code, ins) /\ i' = IT!IStart
\* constants become numbers
Ready(ins) == [k \in 1..Len(ins) |-> IF Len(ins[k]) = 1 THEN ins[k] ELSE <<ins[k][1], VM!Big(0, ins[k][2])>>]
ReadSection(kind) ==
  /\ Asked /\ UNCHANGED <<pos, stack, made, out, texts, s, g, tab, prog, running>>
  /\ IF kind = "simple" THEN Next0(Ready(IT!SimpleFor(Section[1]))) /\ UNCHANGED <<phase, status>>
     ELSE IF ~IT!IOver(i) THEN i' = IT!IStep(Section[2], i) /\ UNCHANGED <<code, phase, status>>
     ELSE IF i.mode = "accept" THEN Next0(Ready(i.ins)) /\ UNCHANGED <<phase, status>>
     ELSE End0("nonzero") /\ UNCHANGED <<i, code>>
ReadRules == ~Asked /\ Rules /\ UNCHANGED <<reading, running>>
CodeOf(n) == IF n \notin RT!NamesOf(s) THEN <<>> ELSE LET d == RT!FirstDef(s, n) IN IF d.call = 0 THEN <<>> ELSE code[d.call]
AnalyseIt == Analyse /\ prog' = [k \in 1..Len(NameSeq) |-> CodeOf(NameSeq[k])] /\ UNCHANGED <<i, code, running>>
\* the first child of a node is the first symbol of the alternative that was taken
FirstText(a) == IF a = <<>> THEN <<>> ELSE <<IF a[Len(a)][1] = "t" THEN a[Len(a)][2] ELSE <<>>>>
Parse == /\ todo = <<>> /\ Script /\ UNCHANGED <<reading, m, printed>>
         /\ IF AtDone THEN todo' = prog[Top.sym[2]] /\ node' = Top.node /\ UNCHANGED kids
            ELSE /\ UNCHANGED <<todo, node>>
                 /\ IF made' = made THEN UNCHANGED kids
                    ELSE kids' = Append(kids, IF AtProduction THEN FirstText(tab[Top.sym[2]][Look(texts[2])]) ELSE <<>>)
Execute(kind) == /\ todo # <<>> /\ m' \in VM!After(kind, m, Head(todo), kids[node]) /\ printed' = printed \o VM!Prints(m, Head(todo))
                 /\ todo' = Tail(todo) /\ UNCHANGED <<toolvars, reading, kids, node>>
LangNext(kind) == ReadSection(kind) \/ ReadRules \/ AnalyseIt \/ Parse \/ Execute(kind)
\* another script for the same language, on the state w starts with
Again(w, fresh) == /\ phase = "script" /\ texts' = [texts EXCEPT ![2] = w] /\ Begin(g.start)
                   /\ kids' = <<>> /\ todo' = <<>> /\ node' = 0 /\ printed' = <<>> /\ m' = (IF fresh THEN VM!Fresh ELSE m)
                   /\ UNCHANGED <<phase, s, g, tab, status, reading>>
=============================================================================
