INIT Init
NEXT Next
CONSTANTS
  N = 3
  Vals <- More
INVARIANTS Lawful Transitive
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
