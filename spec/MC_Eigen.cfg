SPECIFICATION Spec
CONSTANTS
  Top = 2
  N = 4
INVARIANTS Known ReachIsKrylov SameAsRun InSpectrum Smallest
CHECK_DEADLOCK FALSE
