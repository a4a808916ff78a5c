------------------------------- MODULE StackVm ------------------------------
(* The two stack machines: "stack" computes with signed, "simple" with unsigned machine integers. A state is
   [stack (the top last), reg, reg2, err]; err is 1: empty stack or no such node, 2: no number at the node, 3: out of range.
   An instruction is <<name>> or <<name, constant>>. Numbers are BigInts. *)
EXTENDS BigInt, Decimals
Big(neg, t) == OfDigits(neg, t)
CONSTANTS Lo(_), Hi(_)     \* the least and largest number of a machine
MachineLo(kind) == IF kind = "stack" THEN Big(1, MinIsize) ELSE Zero
MachineHi(kind) == IF kind = "stack" THEN Big(0, MaxIsize) ELSE Big(0, MaxUsize)
Fits(kind, n) == LE(Lo(kind), n) /\ LE(n, Hi(kind))
Fresh == [stack |-> <<>>, reg |-> Zero, reg2 |-> Zero, err |-> 0]
Plain == {"Add", "Sub", "Digit", "PopToReg", "PopToReg2", "PopDiscard", "PushFromTree", "PushReg", "PushReg2", "PrintReg", "PrintReg2", "PrintError"}
WithConst == {"RegAddConst", "PushConst", "Pow"}

Val(m) == m.stack[Len(m.stack)]
Popped(m) == [m EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
Pushed(m, n) == [m EXCEPT !.stack = Append(@, n)]
Failed(m, code) == [m EXCEPT !.err = code]
\* n takes the place of the operand, if it is a number of the machine
Result(kind, m, n) == IF Fits(kind, n) THEN Pushed(m, n) ELSE Failed(m, 3)

\* b to the power of n, or <<>> if it is out of all reach
Huge == 60
RECURSIVE PowerFrom(_, _, _)
PowerFrom(b, n, p) == IF n = 0 THEN p ELSE IF Len(p[2]) > Huge THEN <<>> ELSE CHOOSE r \in {PowerFrom(b, n - 1, q) : q \in {Times(p, b)}} : TRUE
Power(b, n) == IF n = Zero THEN OfInt(1) ELSE IF LE(b, OfInt(1)) THEN b
               ELSE IF Len(n[2]) > 3 THEN <<>> ELSE PowerFrom(b, ToInt(n), OfInt(1))
Exponents == 10     \* exponents of up to 9 digits are surely carried out
\* val * base^reg + reg2. Where only something in between is out of range, the machine may give up as well.
PowStates(kind, m, base) ==
  LET k == Popped(m)
      f == Power(base, m.reg)
      p == IF Val(m) = Zero THEN Zero ELSE IF f = <<>> THEN <<>> ELSE Times(Val(m), f)
      r == Plus(p, m.reg2)
  IN IF m.reg[1] = 1 \/ p = <<>> THEN {Failed(k, 3)}
     ELSE IF ~Fits(kind, r) THEN {Failed(k, 3)}
     ELSE {Pushed(k, r)} \cup (IF Len(m.reg[2]) < Exponents /\ (Val(m) = Zero \/ (Fits(kind, f) /\ Fits(kind, p))) THEN {} ELSE {Failed(k, 3)})

\* the number a node's text denotes, or <<>>
AllDigits(t) == t # <<>> /\ \A k \in 1..Len(t) : t[k] \in 48..57
NumberOf(kind, t) ==
  LET sign == IF t # <<>> /\ (t[1] = 43 \/ (t[1] = 45 /\ kind = "stack")) THEN 1 ELSE 0
      d == SubSeq(t, sign + 1, Len(t))
  IN IF ~AllDigits(d) THEN <<>> ELSE LET n == Big(IF sign = 1 /\ t[1] = 45 THEN 1 ELSE 0, d) IN IF Fits(kind, n) THEN n ELSE <<>>

Line(n) == Append(DecText(n), 10)
NeedsOperand(name) == name \in {"Add", "Sub", "PopToReg", "PopToReg2", "PopDiscard", "Pow"}
\* the states an instruction may lead to. node: <<>> or <<text of the first child of the current node>>
After(kind, m, ins, node) ==
  LET name == ins[1] IN
  IF NeedsOperand(name) /\ m.stack = <<>> THEN {Failed(m, 1)}
  ELSE CASE name = "Add" -> {Result(kind, Popped(m), Plus(m.reg, Val(m)))}
         [] name = "Sub" -> {Result(kind, Popped(m), Minus2(Val(m), m.reg))}
         [] name = "PopToReg" -> {[Popped(m) EXCEPT !.reg = Val(m)]}
         [] name = "PopToReg2" -> {[Popped(m) EXCEPT !.reg2 = Val(m)]}
         [] name = "PopDiscard" -> {Popped(m)}
         [] name = "PushConst" -> {Pushed(m, ins[2])}
         [] name = "PushReg" -> {Pushed(m, m.reg)}
         [] name = "PushReg2" -> {Pushed(m, m.reg2)}
         [] name = "PushFromTree" -> IF node = <<>> THEN {Failed(m, 1)}
                                     ELSE LET n == NumberOf(kind, node[1]) IN IF n = <<>> THEN {Failed(m, 2)} ELSE {Pushed(m, n)}
         [] name = "RegAddConst" -> LET n == Plus(m.reg, ins[2]) IN IF Fits(kind, n) THEN {[m EXCEPT !.reg = n]} ELSE {Failed(m, 3)}
         [] name = "Pow" -> PowStates(kind, m, ins[2])
         [] name \in {"Digit", "PrintReg", "PrintReg2", "PrintError"} -> {m}
Prints(m, ins) == CASE ins[1] = "PrintReg" -> Line(m.reg) [] ins[1] = "PrintReg2" -> Line(m.reg2)
                    [] ins[1] = "PrintError" -> Line(OfInt(m.err)) [] OTHER -> <<>>
=============================================================================
