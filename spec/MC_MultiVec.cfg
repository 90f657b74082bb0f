SPECIFICATION Spec
INVARIANTS Right Frame
CHECK_DEADLOCK FALSE
