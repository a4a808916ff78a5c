SPECIFICATION MCSpec
CONSTANTS Lo <- TinyLo
          Hi <- TinyHi
          MaxPieces = 7
          PieceNames = {"d0", "d3", "plus", "minus", "print", "sp"}
          TinyHiN = 40
INVARIANTS Language Machine
CHECK_DEADLOCK FALSE
