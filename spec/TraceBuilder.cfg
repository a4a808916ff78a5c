SPECIFICATION Spec
INVARIANTS BuilderOK
CHECK_DEADLOCK FALSE
