SPECIFICATION MCSpec
CONSTANTS Terms <- TermsABE
          NProd = 3
          MaxAlts = 2
          MaxLen = 3
          Sample = 60000
INVARIANTS AnyOrder FirstIsDerivation FollowIsAdjacency SteuerIsUnion
CHECK_DEADLOCK FALSE
