SPECIFICATION GSpec
CONSTANTS Terms <- TermsAB
          NProd = 2
          MaxAlts = 2
          MaxSyms = 2
          MaxScript = 0
          Alphabet = {97, 98}
          Sample = 12000
CHECK_DEADLOCK FALSE
