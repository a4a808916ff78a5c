SPECIFICATION Spec
INVARIANTS TypeOK StrictlyDescending
CHECK_DEADLOCK FALSE
