INIT Init
NEXT Next
CONSTANTS
  H = {1, 2, 3}
  MaxRefs = 3
  Faults = TRUE
INVARIANTS QuietOutside OnlyConnected
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
