SPECIFICATION Spec
INVARIANTS NamedOK
CHECK_DEADLOCK FALSE
