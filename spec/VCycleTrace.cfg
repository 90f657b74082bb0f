SPECIFICATION TSpec
INVARIANTS CoarseFromZero LevelsNested
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
