------------------------------- MODULE MCTool -------------------------------
(* The tool on chosen rule files (correct and flawed ones) and all short scripts: it always ends, with status zero exactly
   if the script is in the language that is written beside the rule file. *)
EXTENDS Tool, TLC
CONSTANTS MaxLen, Alphabet
A == <<97>>  B == <<98>>  AB == <<97, 98>>
Arrow == <<32, 45, 62, 32>>
Q(t) == <<34>> \o t \o <<34>>
St == STARTNAME
Rep(t, n) == [i \in 1..(n * Len(t)) |-> t[((i - 1) % Len(t)) + 1]]
Ign(x) == <<36>> \o <<73, 71, 78, 79, 82, 69>> \o <<58>> \o x \o <<59>>
\* <<rule file, the scripts it accepts up to length MaxLen>>
Files0 == {
  << <<St \o Arrow \o Q(A) \o <<59>> >>, {A} >>,
  << <<St \o Arrow \o Q(A) \o <<32>> \o St \o <<124, 35, 59>> >>, {Rep(A, n) : n \in 0..MaxLen} >>,
  << <<St \o Arrow \o Q(A) \o <<32>> \o St \o <<32>> \o Q(B) \o <<124, 35, 59>> >>, {Rep(A, n) \o Rep(B, n) : n \in 0..MaxLen} >>,
  << <<Ign(<<119>>) \o St \o Arrow \o Q(A) \o Q(A) \o <<59, 119>> \o Arrow \o Q(B) \o <<124, 35, 59>> >>, {A \o A, A \o B \o A} >>,
  << <<St \o Arrow \o St \o Q(A) \o <<124>> \o Q(B) \o <<59>> >>, {} >>,                       \* left recursive
  << <<St \o Arrow \o Q(A) \o <<124>> \o Q(AB) \o <<59>> >>, {} >>,                             \* not LL(1)
  << <<St \o Arrow \o Q(A) \o <<32, 120, 59>> >>, {} >>,                                        \* undefined production
  << <<<<120>> \o Arrow \o Q(A) \o <<59>> >>, {} >>,                                            \* no start
  << <<St \o Arrow \o Q(A)>>, {} >>,                                                            \* unfinished
  << <<St \o Arrow \o Q(A) \o <<59, 255>> >>, {} >>,                                            \* not UTF-8
  << <<<<>>>>, {} >>, << <<>>, {} >>,                                                           \* empty, missing
  << <<St \o Arrow \o Q(A) \o <<123, 120, 125, 59>> >>, {A} >> }                                \* with a section
VARIABLES rules, script, lang
Init == ToolInit /\ \E f \in Files0 : rules = f[1] /\ lang = f[2] /\ script \in {<<>>} \cup {<<t>> : t \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}}
Next == ToolNext(rules, script) /\ UNCHANGED <<rules, script, lang>>
MCSpec == Init /\ [][Next]_<<toolvars, rules, script, lang>> /\ WF_<<toolvars, rules, script, lang>>(Next)
Right == phase = "done" => status = (IF script # <<>> /\ script[1] \in lang THEN "zero" ELSE "nonzero")
Moves == phase # "done" => ENABLED Next
Ends == <>(phase = "done")
=============================================================================
