SPECIFICATION MCSpec
CONSTANTS Terms <- TermsAB
          NProd = 2
          MaxAlts = 2
          MaxSyms = 2
          MaxScript = 4
          Alphabet = {97, 98}
          Sample = 1500
INVARIANTS AcceptsExactly RejectsThere IsDerivationTree LeavesAreScript RunsOnce RunsInTime Moves
CHECK_DEADLOCK FALSE
PROPERTY Stops
