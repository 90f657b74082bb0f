SPECIFICATION Spec
CONSTANTS MaxL = 3
          MaxJobs = 3
INVARIANTS NothingLeftOpen WorkHasItsSection EachCounted
PROPERTY Comes
CHECK_DEADLOCK FALSE
