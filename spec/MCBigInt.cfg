SPECIFICATION MCSpec
CONSTANT Bound = 210
INVARIANT Agree
CHECK_DEADLOCK FALSE
