SPECIFICATION Spec
CONSTANT Differences = 2
INVARIANTS NeverSilent SameAnswer Unused
CHECK_DEADLOCK FALSE
POSTCONDITION Written
