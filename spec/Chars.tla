-------------------------------- MODULE Chars -------------------------------
(* Characters are code points. The classes the readers are defined by, for ASCII and a chosen set of other characters
   (Known); cases use only these. *)
EXTENDS Naturals
IsDigit(x) == x \in 48..57
IsSpace(x) == x \in 9..13 \/ x \in {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ x \in 8192..8202
AlphaOther == {170, 196, 223, 228, 233, 304, 837, 955, 1046, 1488, 8551, 23383, 28450, 119964}
NumOther == {178, 189, 1635, 2406, 9312, 65296}
NoneOther == {769, 8203, 8204, 8205, 8255, 8288, 8364, 8594, 6158, 65279, 65343, 65533, 57344, 55295, 128512, 1114111}
IsAlpha(x) == x \in 65..90 \/ x \in 97..122 \/ x \in AlphaOther
IsAlnum(x) == IsAlpha(x) \/ IsDigit(x) \/ x \in NumOther
IsNameChar(x) == IsAlnum(x) \/ x = 95
KnownChar(x) == x < 128 \/ IsSpace(x) \/ x \in AlphaOther \/ x \in NumOther \/ x \in NoneOther
=============================================================================
