--------------------------------- MODULE Utf8 -------------------------------
(* Bytes as UTF-8 text. Decode gives <<valid, characters>>; only shortest forms of characters that are not surrogates
   are valid. *)
EXTENDS Naturals, Sequences
LOCAL SX == INSTANCE SequencesExt
Tail10(b) == b \in 128..191
\* the length of the character that starts with byte b, 0 if none does
SizeOf(b) == CASE b < 128 -> 1 [] b \in 194..223 -> 2 [] b \in 224..239 -> 3 [] b \in 240..244 -> 4 [] OTHER -> 0
\* the bytes the second byte can be (the others can be any continuation byte)
Second(b) == CASE b = 224 -> 160..191 [] b = 237 -> 128..159 [] b = 240 -> 144..191 [] b = 244 -> 128..143 [] OTHER -> 128..191
Bits(b, size) == CASE size = 2 -> b % 32 [] size = 3 -> b % 16 [] size = 4 -> b % 8
\* d: [need: bytes to come, next: what the next one can be, code: the character so far, text: the characters, valid]
Byte(d, b) ==
  IF ~d.valid THEN d
  ELSE IF d.need = 0
  THEN IF SizeOf(b) = 0 THEN [d EXCEPT !.valid = FALSE]
       ELSE IF SizeOf(b) = 1 THEN [d EXCEPT !.text = Append(@, b)]
       ELSE [d EXCEPT !.need = SizeOf(b) - 1, !.next = Second(b), !.code = Bits(b, SizeOf(b))]
  ELSE IF b \notin d.next THEN [d EXCEPT !.valid = FALSE]
  ELSE IF d.need = 1 THEN [d EXCEPT !.need = 0, !.text = Append(@, (d.code * 64) + (b % 64))]
  ELSE [d EXCEPT !.need = @ - 1, !.next = 128..191, !.code = (@ * 64) + (b % 64)]
Decode(bytes) == LET d == SX!FoldLeft(Byte, [need |-> 0, next |-> {}, code |-> 0, text |-> <<>>, valid |-> TRUE], bytes)
                 IN <<d.valid /\ d.need = 0, d.text>>
=============================================================================
