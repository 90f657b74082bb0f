SPECIFICATION TSpec
CONSTANT Want = {"block"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
