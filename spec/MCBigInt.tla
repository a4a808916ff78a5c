------------------------------- MODULE MCBigInt -----------------------------
(* The arithmetic of BigInt against that of TLC on all pairs of integers up to Bound. *)
EXTENDS BigInt, TLC
CONSTANT Bound
VARIABLES a, b
Init == a \in (0 - Bound)..Bound /\ b \in (0 - Bound)..Bound
MCSpec == Init /\ [][FALSE]_<<a, b>>
A == OfInt(a)
B == OfInt(b)
Same(x, n) == IsBig(x) /\ x = OfInt(n) /\ ToInt(x) = n
Agree == /\ Same(A, a) /\ Same(Plus(A, B), a + b) /\ Same(Minus2(A, B), a - b) /\ Same(Times(A, B), a * b) /\ LE(A, B) = (a <= b)
         /\ Same(Times(Times(A, B), B), a * b * b)
         /\ OfDigits(A[1], IF a < 0 THEN Tail(DecText(A)) ELSE DecText(A)) = A
=============================================================================
