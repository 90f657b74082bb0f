SPECIFICATION TSpec
CONSTANT Want = {"boundary"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
