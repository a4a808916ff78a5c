SPECIFICATION MCSpec
CONSTANTS MaxNodes = 3
          MaxEdges = 3
          Numbers = {0, 1, 3}
INVARIANTS TypeOK StrictlyDescending Implements PathsOK
PROPERTIES EdgesKeepNumbers
CHECK_DEADLOCK FALSE
