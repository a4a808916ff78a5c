SPECIFICATION MCSpec
CONSTANTS Terms <- TermsAE
          NProd = 2
          MaxAlts = 2
          MaxLen = 2
          Sample = 6000
INVARIANTS AnyOrder FirstIsDerivation FollowIsAdjacency SteuerIsUnion
CHECK_DEADLOCK FALSE
