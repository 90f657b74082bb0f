CONSTANTS
  N = 3
  P = 2
SPECIFICATION Spec
INVARIANTS Partition Correct Guessed
PROPERTIES Done
CHECK_DEADLOCK FALSE
