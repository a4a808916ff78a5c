SPECIFICATION MCSpec
CONSTANTS MaxLen = 5
          Alphabet = {48, 55, 45, 97, 95, 32, 125}
INVARIANTS Longest FailsClean Values
CHECK_DEADLOCK FALSE
