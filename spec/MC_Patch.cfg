SPECIFICATION MCSpec
CONSTANTS MaxW = 2 MaxH = 2
INVARIANTS Ok EmptyOk
CHECK_DEADLOCK FALSE
