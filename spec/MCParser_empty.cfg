SPECIFICATION MCSpec
CONSTANTS Terms <- TermsAE
          NProd = 2
          MaxAlts = 2
          MaxSyms = 2
          MaxScript = 4
          Alphabet = {97, 98}
          Sample = 12000
INVARIANTS AcceptsExactly RejectsThere IsDerivationTree LeavesAreScript RunsOnce RunsInTime Moves
CHECK_DEADLOCK FALSE
