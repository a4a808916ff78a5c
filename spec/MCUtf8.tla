------------------------------- MODULE MCUtf8 -------------------------------
(* Decoding against encoding: every sequence of boundary characters is decoded from its bytes; a sequence of boundary bytes
   is valid exactly if it is the encoding of what it decodes to. *)
EXTENDS Utf8, TLC
CONSTANTS MaxChars, MaxBytes
Boundary == {0, 127, 128, 2047, 2048, 4095, 4096, 55295, 57344, 65535, 65536, 262143, 262144, 1048575, 1048576, 1114111}
Bytes == {0, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 237, 239, 240, 241, 244, 245, 255}
C10(n) == 128 + (n % 64)
Encode1(n) == IF n < 128 THEN <<n>> ELSE IF n < 2048 THEN <<192 + n \div 64, C10(n)>>
              ELSE IF n < 65536 THEN <<224 + n \div 4096, C10(n \div 64), C10(n)>>
              ELSE <<240 + n \div 262144, C10(n \div 4096), C10(n \div 64), C10(n)>>
RECURSIVE Encode(_)
Encode(t) == IF t = <<>> THEN <<>> ELSE Encode1(Head(t)) \o Encode(Tail(t))
Scalar(n) == n \in 0..55295 \/ n \in 57344..1114111
Encoded == {Encode(t) : t \in UNION {[1..n -> Boundary] : n \in 0..2}}
VARIABLES kind, x
Init == \/ kind = "chars" /\ x \in UNION {[1..n -> Boundary] : n \in 0..MaxChars}
        \/ kind = "bytes" /\ x \in UNION {[1..n -> Bytes] : n \in 0..MaxBytes}
Next == FALSE /\ UNCHANGED <<kind, x>>
MCSpec == Init /\ [][Next]_<<kind, x>>
RoundTrip == kind = "chars" => Decode(Encode(x)) = <<TRUE, x>>
Exact == kind = "bytes" => LET d == Decode(x) IN
           IF d[1] THEN Encode(d[2]) = x /\ \A i \in 1..Len(d[2]) : Scalar(d[2][i])
           ELSE x \notin Encoded
=============================================================================
