--------------------------------- MODULE Tool -------------------------------
(* The command-line tool: both files are read and decoded, the rule text is read, the grammar analysed, the script parsed.
   A file is what reading it gives: <<>> if it cannot be read, else <<bytes>>. *)
EXTENDS Parser, Utf8
RT == INSTANCE RuleText
VARIABLES phase,    \* "files", "rules", "analyse", "script", then "done"
          texts,    \* the rule text and the script as characters
          s,        \* the state of the rule reader
          g, tab,   \* the grammar and its table
          status    \* "", then "zero", "nonzero" or "either"
toolvars == <<pos, stack, made, out, phase, texts, s, g, tab, status>>
ToolInit == /\ phase = "files" /\ texts = <<>> /\ s = RT!Start /\ g = <<>> /\ tab = <<>> /\ status = ""
            /\ pos = 0 /\ stack = <<>> /\ made = 0 /\ out = "start"
End0(v) == phase' = "done" /\ status' = v
\* sections are read whole by the tool's machine
AllRead == [upto |-> RT!No, fail |-> 0]
Readable(file) == file # <<>> /\ Decode(file[1])[1]
Files(rules, script) ==
  /\ phase = "files" /\ UNCHANGED <<pos, stack, made, out, s, g, tab>>
  /\ IF Readable(rules) /\ Readable(script)
     THEN texts' = <<Decode(rules[1])[2], Decode(script[1])[2]>> /\ phase' = "rules" /\ UNCHANGED status
     ELSE End0("nonzero") /\ UNCHANGED texts
Rules == /\ phase = "rules" /\ UNCHANGED <<pos, stack, made, out, texts, g, tab>>
         /\ IF ~RT!Over(s) THEN s' = RT!Step(texts[1], s, AllRead) /\ UNCHANGED <<phase, status>>
            ELSE IF s.mode = "accept" THEN phase' = "analyse" /\ UNCHANGED <<s, status>>
            ELSE End0("nonzero") /\ UNCHANGED s
\* the grammar that was read, its productions numbered
STARTNAME == <<115, 116, 97, 114, 116>>
NameSeq == SetToSeq({e[2] : e \in {e \in s.els : e[1] = "n"}})
NumberOf(names, n) == CHOOSE k \in 1..Len(names) : names[k] = n
Symbols(names, a) == [m \in 1..Len(a) |-> IF a[m][1] = "t" THEN a[m] ELSE <<"n", NumberOf(names, a[m][2])>>]
GrammarFrom(names) == [alts |-> [k \in 1..Len(names) |-> LET w == IF names[k] \in RT!NamesOf(s) THEN RT!Woven(s, names[k]) ELSE <<>> IN [j \in 1..Len(w) |-> Symbols(names, w[j])]],
                       def |-> [k \in 1..Len(names) |-> names[k] \in RT!NamesOf(s)], start |-> NumberOf(names, STARTNAME)]
HasStart == STARTNAME \in RT!NamesOf(s)
Analyse == /\ phase = "analyse" /\ UNCHANGED <<texts, s>>
           /\ IF ~HasStart THEN End0("nonzero") /\ UNCHANGED <<pos, stack, made, out, g, tab>>
              ELSE \E x \in {GrammarFrom(NameSeq)} : \E S \in {Sets(x)} :
                   IF Usable(x, S) THEN g' = x /\ tab' = TableOf(x, S) /\ Begin(x.start) /\ phase' = "script" /\ UNCHANGED status
                   ELSE End0("nonzero") /\ UNCHANGED <<pos, stack, made, out, g, tab>>
Script == /\ phase = "script" /\ UNCHANGED <<texts, s, g, tab>>
          /\ LET w == texts[2] IN
             IF out = "run" THEN (Predict(tab, w) \/ Match(w) \/ Complete \/ Accept(w) \/ Reject(tab, w)) /\ UNCHANGED <<phase, status>>
             ELSE End0(IF out = "reject" THEN "nonzero" ELSE IF RT!Dangling(s) THEN "either" ELSE "zero") /\ UNCHANGED <<pos, stack, made, out>>
ToolNext(rules, script) == Files(rules, script) \/ Rules \/ Analyse \/ Script
=============================================================================
