CONSTANTS
  N = 4
  Entries = {0, 1, 2, 90, 150, 1000}
  FixedEntries = {0, 1, 7, 5000}
SPECIFICATION Spec
INVARIANTS Smallest ErrorOnlyWhenImpossible
CHECK_DEADLOCK FALSE
