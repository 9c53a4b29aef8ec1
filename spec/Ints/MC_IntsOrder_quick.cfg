INIT Init
NEXT Next
CONSTANTS
  N = 3
  Vals <- Some
INVARIANTS Lawful Transitive
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
