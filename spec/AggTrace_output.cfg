SPECIFICATION TSpec
CONSTANT Want = {"output"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
