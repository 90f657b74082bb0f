SPECIFICATION MCSpec
CONSTANTS P = 2 A = 2
INVARIANTS OneOwner OneValue Assembled
CHECK_DEADLOCK FALSE
