SPECIFICATION Spec
CONSTANTS MaxDim = 3
          MaxJobs = 1
INVARIANTS AllFaithful
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
