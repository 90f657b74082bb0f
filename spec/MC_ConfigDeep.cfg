SPECIFICATION Spec
CONSTANT Differences = 3
INVARIANTS NeverSilent SameAnswer Unused
CHECK_DEADLOCK FALSE
POSTCONDITION Written
