SPECIFICATION Spec
CONSTANTS
  Top = 4
  N = 3
INVARIANTS Known ReachIsKrylov SameAsRun InSpectrum Smallest
PROPERTY Finishes
CHECK_DEADLOCK FALSE
