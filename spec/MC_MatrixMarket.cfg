SPECIFICATION Spec
CONSTANTS MaxDim = 2
          MaxJobs = 2
INVARIANTS AllFaithful
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
