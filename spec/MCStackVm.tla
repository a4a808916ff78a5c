------------------------------ MODULE MCStackVm -----------------------------
(* Both machines with a tiny range of integers: every instruction from every state with a stack of up to MaxStack. *)
EXTENDS StackVm, TLC, FiniteSets
CONSTANTS MaxStack, Kinds, TinyNumbers
TinyLo(kind) == IF kind = "stack" THEN OfInt(0 - 4) ELSE Zero
TinyHi(kind) == IF kind = "stack" THEN OfInt(3) ELSE OfInt(7)
VARIABLES kind, m, ins, out
Numbers == {OfInt(n) : n \in TinyNumbers}
Consts(k) == {n \in Numbers : Fits(k, n)}
\* nothing, 1, -1, +2, 07, 8, -, 1x
Nodes == {<<>>, <<<<49>>>>, <<<<45, 49>>>>, <<<<43, 50>>>>, <<<<48, 55>>>>, <<<<56>>>>, <<<<45>>>>, <<<<>>>>, <<<<49, 120>>>>}
Instructions == {<<x>> : x \in Plain} \cup {<<x, n>> : x \in WithConst, n \in Numbers}
Init == kind \in Kinds /\ m = Fresh /\ ins = <<"none">> /\ out = <<>>
Do(i, node) == /\ ins' = i /\ m' \in After(kind, m, i, node) /\ Len(m'.stack) <= MaxStack /\ out' = Prints(m, i) /\ UNCHANGED kind
Next == \E i \in Instructions, node \in Nodes : (Len(i) = 2 => Fits(kind, i[2])) /\ (i[1] # "PushFromTree" => node = <<>>) /\ Do(i, node)
View == <<kind, m>>
MCSpec == Init /\ [][Next]_<<kind, m, ins, out>>

NumberOK(n) == IsBig(n) /\ Fits(kind, n)
TypeOK == /\ \A k \in 1..Len(m.stack) : NumberOK(m.stack[k])
          /\ NumberOK(m.reg) /\ NumberOK(m.reg2) /\ m.err \in 0..3
Name == ins'[1]
\* only the instruction for it changes a register, only those with the stack change the stack, by at most one value
Frame == [][/\ m'.reg # m.reg => Name \in {"PopToReg", "RegAddConst"}
            /\ m'.reg2 # m.reg2 => Name = "PopToReg2"
            /\ m'.stack # m.stack => Name \in {"Add", "Sub", "Pow", "PopToReg", "PopToReg2", "PopDiscard", "PushConst", "PushReg", "PushReg2", "PushFromTree"}
            /\ Len(m'.stack) - Len(m.stack) \in {0 - 1, 0, 1}
            /\ LET n == IF Len(m.stack) < Len(m'.stack) THEN Len(m.stack) ELSE Len(m'.stack)
                   u == IF n = Len(m.stack) /\ n = Len(m'.stack) THEN n - 1 ELSE n
               IN \A k \in 1..u : m'.stack[k] = m.stack[k]]_<<kind, m, ins, out>>
\* where the machine gives up: registers stay, the code tells why; otherwise the code stays
I(b) == ToInt(b)
Raise(b, n) == IF n = 0 THEN 1 ELSE b ^ n
Val2 == I(Val(m))
Wanted == CASE Name = "Add" -> Val2 + I(m.reg) [] Name = "Sub" -> Val2 - I(m.reg) [] Name = "Pow" -> Val2 * Raise(I(ins'[2]), I(m.reg)) + I(m.reg2)
InRange(n) == I(Lo(kind)) <= n /\ n <= I(Hi(kind))
Between == ~InRange(Raise(I(ins'[2]), I(m.reg))) \/ ~InRange(Wanted - I(m.reg2))
Computes == /\ Name \in {"Add", "Sub", "Pow"}
            /\ m.stack # <<>>
            /\ Name = "Pow" => I(m.reg) \in 0..9
Computed == \/ ~InRange(Wanted) /\ m' = Failed(Popped(m), 3)
            \/ InRange(Wanted) /\ m' = Pushed(Popped(m), OfInt(Wanted))
            \/ Name = "Pow" /\ Val2 # 0 /\ Between /\ m' = Failed(Popped(m), 3)
Arithmetic == [][Computes => Computed]_<<kind, m, ins, out>>
GivesUp == [][/\ (m.stack = <<>> /\ NeedsOperand(Name) => m' = Failed(m, 1))
              /\ (m'.err # m.err => m'.err \in 1..3 /\ m'.reg = m.reg /\ m'.reg2 = m.reg2 /\ Len(m'.stack) <= Len(m.stack))
              /\ (Name = "RegAddConst" => IF InRange(I(m.reg) + I(ins'[2])) THEN I(m'.reg) = I(m.reg) + I(ins'[2]) ELSE m' = Failed(m, 3))]_<<kind, m, ins, out>>
Printing == [][(out' # <<>>) = (Name \in {"PrintReg", "PrintReg2", "PrintError"}) /\ (out' # <<>> => m' = m)]_<<kind, m, ins, out>>
=============================================================================
