SPECIFICATION MCSpec
CONSTANTS MaxLen = 5
          Alphabet = {97, 98, 255}
INVARIANTS Right Moves
PROPERTIES Ends
CHECK_DEADLOCK FALSE
