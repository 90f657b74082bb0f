SPECIFICATION Spec
CONSTANTS MaxL = 4
          MaxJobs = 4
INVARIANTS NothingLeftOpen WorkHasItsSection EachCounted
PROPERTY Comes
CHECK_DEADLOCK FALSE
