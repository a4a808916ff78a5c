SPECIFICATION Spec
INVARIANT ForestOK
CHECK_DEADLOCK FALSE
