SPECIFICATION GSpec
CONSTANT Depth = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
