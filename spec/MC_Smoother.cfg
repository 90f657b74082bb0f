SPECIFICATION MCSpec
INVARIANTS Solves FactorsFit
CHECK_DEADLOCK FALSE
