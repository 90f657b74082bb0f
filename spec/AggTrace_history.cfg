SPECIFICATION TSpec
CONSTANT Want = {"history"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
