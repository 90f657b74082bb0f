SPECIFICATION TSpec
INVARIANT Faithful
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
