SPECIFICATION MCSpec
CONSTANTS MaxLen = 7
          Alphabet = {34, 92, 97, 125}
INVARIANTS QuotedByScan
CHECK_DEADLOCK FALSE
