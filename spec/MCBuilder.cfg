SPECIFICATION MCSpec
CONSTANTS Names = {"x", "y"}
          MaxAlts = 2
INVARIANTS BuilderOK LookupOK
PROPERTIES Stable Separate
CHECK_DEADLOCK FALSE
