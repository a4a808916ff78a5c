SPECIFICATION MCSpec
CONSTANTS Lo <- TinyLo
          Hi <- TinyHi
          MaxStack = 3
          Kinds = {"stack", "simple"}
          TinyNumbers = {0, 1, 3}
VIEW View
INVARIANT TypeOK
PROPERTIES Frame Arithmetic GivesUp Printing
CHECK_DEADLOCK FALSE
