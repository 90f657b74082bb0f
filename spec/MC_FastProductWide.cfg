CONSTANTS N = 4 Unit = 12 Slots = 3 ClearEmpty = TRUE
SPECIFICATION MCSpec
INVARIANTS Exact InOrder OneTask
CHECK_DEADLOCK FALSE
