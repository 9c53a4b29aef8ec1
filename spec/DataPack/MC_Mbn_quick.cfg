INIT Init
NEXT Next
CONSTANTS
  N = 3
  A <- Few
INVARIANTS Sound Unique Sizes
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
