-------------------------------- MODULE BigInt ------------------------------
(* Integers of any size: <<0 or 1 (negative), decimal digits, the least significant first, no leading zeros>>. *)
EXTENDS Integers, Sequences, SequencesExt
Zero == <<0, <<>>>>
Sig(d) == FoldLeft(LAMBDA n, k : IF d[k] # 0 THEN k ELSE n, 0, [k \in 1..Len(d) |-> k])
\* without leading zeros
Strip(d) == SubSeq(d, 1, Sig(d))
Make(neg, d) == LET m == Strip(d) IN <<IF m = <<>> THEN 0 ELSE neg, m>>
IsBig(b) == /\ b[1] \in {0, 1} /\ \A k \in 1..Len(b[2]) : b[2][k] \in 0..9
            /\ (b[2] = <<>> => b[1] = 0) /\ (b[2] # <<>> => b[2][Len(b[2])] # 0)
D(d, k) == IF k <= Len(d) THEN d[k] ELSE 0
Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

\* magnitudes: -1, 0, 1
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN 0 - 1 ELSE IF a[k] > b[k] THEN 1 ELSE CmpFrom(a, b, k - 1)
CmpM(a, b) == IF Len(a) < Len(b) THEN 0 - 1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))
\* the digits of the number with the given amounts (of any size, also negative) at its places
Step10(acc, x) == <<(acc[1] + x) \div 10, Append(acc[2], (acc[1] + x) % 10)>>
Carried(cols) == FoldLeft(Step10, <<0, <<>>>>, cols \o <<0, 0, 0, 0>>)[2]
Sum(q) == FoldLeft(+, 0, q)
AddM(a, b) == Strip(Carried([k \in 1..Longer(a, b) |-> D(a, k) + D(b, k)]))
SubM(a, b) == Strip(Carried([k \in 1..Longer(a, b) |-> D(a, k) - D(b, k)]))     \* for a >= b
\* a column of a product is the sum of the products of digits that belong there
MulM(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE Strip(Carried([k \in 1..(Len(a) + Len(b)) |-> Sum([i \in 1..Len(a) |-> IF k + 1 - i \in 1..Len(b) THEN a[i] * b[k + 1 - i] ELSE 0])]))

Neg(a) == IF a = Zero THEN a ELSE <<1 - a[1], a[2]>>
Plus(a, b) == IF a[1] = b[1] THEN Make(a[1], AddM(a[2], b[2]))
              ELSE IF CmpM(a[2], b[2]) >= 0 THEN Make(a[1], SubM(a[2], b[2])) ELSE Make(b[1], SubM(b[2], a[2]))
Minus2(a, b) == Plus(a, Neg(b))
Times(a, b) == Make(IF a[1] = b[1] THEN 0 ELSE 1, MulM(a[2], b[2]))
LE(a, b) == IF a[1] # b[1] THEN a[1] = 1 ELSE IF a[1] = 0 THEN CmpM(a[2], b[2]) <= 0 ELSE CmpM(a[2], b[2]) >= 0

\* the text of a number, and the number of a text of digits
Rev(d) == [k \in 1..Len(d) |-> d[Len(d) + 1 - k]]
DecText(b) == IF b = Zero THEN <<48>> ELSE (IF b[1] = 1 THEN <<45>> ELSE <<>>) \o [k \in 1..Len(b[2]) |-> b[2][Len(b[2]) + 1 - k] + 48]
OfDigits(neg, t) == Make(neg, [k \in 1..Len(t) |-> t[Len(t) + 1 - k] - 48])
\* TLC integers (only small ones)
RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN <<>> ELSE <<n % 10>> \o MagOf(n \div 10)
OfInt(n) == IF n < 0 THEN <<1, MagOf(0 - n)>> ELSE <<0, MagOf(n)>>
RECURSIVE IntOfM(_, _)
IntOfM(d, k) == IF k > Len(d) THEN 0 ELSE d[k] + 10 * IntOfM(d, k + 1)
ToInt(b) == (IF b[1] = 1 THEN 0 - 1 ELSE 1) * IntOfM(b[2], 1)
=============================================================================
