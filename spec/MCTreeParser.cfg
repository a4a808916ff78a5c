SPECIFICATION MCSpec
CONSTANTS MaxScript = 3
          Alphabet = {97, 98}
INVARIANTS TreeOK OpenStay KidsInOrder Moves Verdict
PROPERTIES Stable Branches
CHECK_DEADLOCK FALSE
