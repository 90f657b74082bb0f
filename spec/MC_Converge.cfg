SPECIFICATION MCSpec
INVARIANTS NeverGrows Projected
CHECK_DEADLOCK FALSE
