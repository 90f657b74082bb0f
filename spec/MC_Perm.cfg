CONSTANT MaxN = 6
SPECIFICATION MCSpec
INVARIANTS Correct Partial
PROPERTY Terminates
CHECK_DEADLOCK FALSE
