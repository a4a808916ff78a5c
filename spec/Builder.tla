------------------------------- MODULE Builder ------------------------------
(* A grammar under construction (parser_data::ParserData): elements are identified by kind and name and numbered from 0
   in order of first mention; every production has alternatives and instructions. *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES elems,   \* Seq of <<kind, name>>; element n is elems[n + 1]
          alts,    \* production -> Seq of alternatives (Seq of elements)
          inst     \* production -> Seq of instructions
bvars == <<elems, alts, inst>>

Range(s) == {s[k] : k \in 1..Len(s)}
BuilderInit == elems = <<>> /\ alts = <<>> /\ inst = <<>>
AltsOf(p) == IF p \in DOMAIN alts THEN alts[p] ELSE <<>>
InstOf(p) == IF p \in DOMAIN inst THEN inst[p] ELSE <<>>
Put(fn, p, v) == [x \in DOMAIN fn \cup {p} |-> IF x = p THEN v ELSE fn[x]]
IndexOf(e) == IF e \in Range(elems) THEN <<(CHOOSE k \in 1..Len(elems) : elems[k] = e) - 1>> ELSE <<>>

Mention(e, ix) ==
  IF e \in Range(elems) THEN <<ix>> = IndexOf(e) /\ UNCHANGED bvars
  ELSE ix = Len(elems) /\ elems' = Append(elems, e) /\ UNCHANGED <<alts, inst>>
AddProduction(p, a) == alts' = Put(alts, p, Append(AltsOf(p), a)) /\ UNCHANGED <<elems, inst>>
SetProductions(p, as) == alts' = Put(alts, p, as) /\ UNCHANGED <<elems, inst>>
SetInstructions(p, is) == inst' = Put(inst, p, is) /\ UNCHANGED <<elems, alts>>

Element(n) == IF n < Len(elems) THEN <<elems[n + 1]>> ELSE <<>>
BuilderOK == \A j, k \in 1..Len(elems) : elems[j] = elems[k] => j = k
Stable == [][Len(elems) <= Len(elems') /\ SubSeq(elems', 1, Len(elems)) = elems]_bvars
=============================================================================
