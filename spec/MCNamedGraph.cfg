SPECIFICATION MCSpec
CONSTANTS Names = {5, 7, 9}
          MaxEdges = 3
INVARIANTS NamedOK ByNameAndIndex
PROPERTIES NamesStable EdgesStable
CHECK_DEADLOCK FALSE
