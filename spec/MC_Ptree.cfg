SPECIFICATION MCSpec
INVARIANTS Faithful IntIsReal KindTotal IntFaithful BlankIsText Distinguishes
CHECK_DEADLOCK FALSE
