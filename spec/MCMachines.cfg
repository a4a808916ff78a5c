SPECIFICATION CSpec
CONSTANTS Terms <- TermsAB
          NProd = 2
          MaxAlts = 2
          MaxSyms = 2
          MaxScript = 3
          Alphabet = {97, 98}
          Sample = 3000
INVARIANTS Counted CountsTree NotStuck AcceptsExactly
CHECK_DEADLOCK FALSE
