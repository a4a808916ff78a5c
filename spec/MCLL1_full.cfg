SPECIFICATION MCSpec
CONSTANTS Terms <- TermsAE
          NProd = 2
          MaxAlts = 2
          MaxLen = 2
          Sample = 0
INVARIANTS AnyOrder FirstIsDerivation FollowIsAdjacency SteuerIsUnion
CHECK_DEADLOCK FALSE
