------------------------------- MODULE Decimals -----------------------------
(* Decimal numbers as texts (sequences of digit characters), and the limits of the machine's integers. *)
EXTENDS Naturals, Sequences
\* without leading zeros
FromFirst(d, counts) == IF counts = {} THEN d ELSE SubSeq(d, CHOOSE k \in counts : \A m \in counts : k <= m, Len(d))
Canon(x) == CHOOSE r \in {FromFirst(d, {k \in 1..Len(d) : d[k] # 48 \/ k = Len(d)}) : d \in {x}} : TRUE
RECURSIVE LexLE(_, _)
LexLE(a, b) == a = <<>> \/ (IF a[1] = b[1] THEN LexLE(Tail(a), Tail(b)) ELSE a[1] < b[1])
NumLE(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLE(a, b))
Dig(t) == [k \in 1..Len(t) |-> t[k] + 48]
MaxUsize == Dig(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>)
MaxIsize == Dig(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>)
MinIsize == Dig(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>)   \* its magnitude
=============================================================================
