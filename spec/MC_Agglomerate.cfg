SPECIFICATION MCSpec
CONSTANTS MaxN = 3
 MaxSize = 2
INVARIANTS Partition Kept InBlock AgreesWithFunction
CHECK_DEADLOCK FALSE
