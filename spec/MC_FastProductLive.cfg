CONSTANTS N = 3 Unit = 12 Slots = 2 ClearEmpty = TRUE
SPECIFICATION MCSpec
INVARIANTS Exact InOrder OneTask
PROPERTY Ends
CHECK_DEADLOCK FALSE
