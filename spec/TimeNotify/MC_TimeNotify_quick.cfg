INIT Init
NEXT Next
CONSTANTS
  H = {1, 2}
  MaxRefs = 2
  Faults = TRUE
INVARIANTS QuietOutside OnlyConnected
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
