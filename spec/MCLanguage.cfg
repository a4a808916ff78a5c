SPECIFICATION MCSpec
CONSTANTS Lo <- MachineLo
          Hi <- MachineHi
          MaxLen = 3
          Alphabet = {40, 41, 49, 50, 57, 59}
INVARIANTS Right Sane Moves
PROPERTIES Ends
CHECK_DEADLOCK FALSE
