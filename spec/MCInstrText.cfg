SPECIFICATION MCSpec
CONSTANTS MaxPieces = 5
          PieceNames = {"add", "pow", "push", "unk", "semi", "sp", "num", "max"}
INVARIANTS Ends Canonical Shape Parts
PROPERTY Progress
CHECK_DEADLOCK FALSE
