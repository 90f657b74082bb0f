SPECIFICATION MCSpec
INVARIANTS Laws Exact
CHECK_DEADLOCK FALSE
CONSTANT Depth = 1
