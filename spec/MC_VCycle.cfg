SPECIFICATION MCSpec
INVARIANTS Correct FixedPoint NoGarbage CoarseFromZero LevelsNested
CHECK_DEADLOCK FALSE
