SPECIFICATION MCSpec
CONSTANTS Lo <- TinyLo
          Hi <- TinyHi
          MaxStack = 2
          Kinds = {"stack", "simple"}
          TinyNumbers = {0, 1, 2, 3, 7}
VIEW View
INVARIANT TypeOK
PROPERTIES Frame Arithmetic GivesUp Printing
CHECK_DEADLOCK FALSE
