SPECIFICATION MCSpec
CONSTANTS MaxN = 2
 MaxSize = 2
PROPERTIES Termination
CHECK_DEADLOCK FALSE
