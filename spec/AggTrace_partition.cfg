SPECIFICATION TSpec
CONSTANT Want = {"partition"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
