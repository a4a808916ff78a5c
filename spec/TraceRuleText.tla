---------------------------- MODULE TraceRuleText ---------------------------
(* Recorded readings of rule texts. A case has the text t, how the VM reads (vm), the result, the grammar read (els: its
   elements, rules: <<production, alternatives, instructions>>), and calls: the name and the text the VM got each time.
   clean: looking ahead showed what came, and at the end of a section nothing more came. *)
EXTENDS RuleText, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT
VARIABLES c, s, over
X == Cases[c]
Init == c \in 1..Len(Cases) /\ s = Start /\ over = FALSE /\ \A k \in 1..Len(X.t) : KnownChar(X.t[k])
Read == ~Over(s) /\ s' = Step(X.t, s, X.vm) /\ UNCHANGED <<c, over>>

InstOf(call) == IF call = 0 THEN <<>> ELSE [k \in 1..(call % 3) |-> call * 10 + k]
Names == {X.rules[k][1] : k \in 1..Len(X.rules)}
\* one rule for each production, with what R(production, rule) demands
RulesAre(R(_, _)) == /\ Names = {N(n) : n \in NamesOf(s)} /\ Len(X.rules) = Cardinality(Names)
                     /\ \A k \in 1..Len(X.rules) : R(X.rules[k][1][2], X.rules[k])
Elements == {X.els[k] : k \in 1..Len(X.els)} = s.els /\ Len(X.els) = Cardinality(s.els)
Written(n, r) == r[2] = Alts(s, n)
WovenRule(n, r) == r[2] = Woven(s, n)
Instructed(n, r) == r[3] = InstOf(FirstDef(s, n).call)
Place == CASE X.res.kind = "char" -> X.res.pos = s.at /\ Ch(X.t, s.at) = X.res.chr
           [] X.res.kind = "end" -> X.res.pos = s.at /\ (s.at = Len(X.t) \/ Len(s.calls) = X.vm.fail)   \* for a VM the text ends with the section
           [] OTHER -> TRUE
Good == s.mode = "accept"
Judge == CASE Aspect = "C08" -> Good /\ ~Ignoring(s) => X.res.ok /\ RulesAre(Written) /\ Elements
           [] Aspect = "C09" -> ~Good => ~X.res.ok /\ Place
           [] Aspect = "C10" -> Good /\ ~Dangling(s) => X.res.ok /\ RulesAre(WovenRule)
           [] Aspect = "C11" -> /\ X.calls = s.calls /\ X.clean
                                /\ IF Good THEN (~Dangling(s) => X.res.ok) /\ (X.res.ok => RulesAre(Instructed)) ELSE ~X.res.ok
Finish == ~over /\ Over(s) /\ X.end = "ok" /\ Judge /\ over' = TRUE /\ PrintT(<<"OK", c>>) /\ UNCHANGED <<c, s>>
Next == Read \/ Finish
Spec == Init /\ [][Next]_<<c, s, over>>
=============================================================================
