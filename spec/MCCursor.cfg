SPECIFICATION MCSpec
CONSTANTS MaxLen = 4
          Alphabet = {97, 125, 92}
INVARIANTS Bounded ShowsRight PositionsRight AheadRight OneByOne
CHECK_DEADLOCK FALSE
