INIT Init
NEXT Next
CONSTANTS
  N = 3
  MaxDepth = 2
  Maxs <- MaxsQuick
  WithFree = {TRUE}
INVARIANTS TypeOK Bounded FreedOnce NothingLeft
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
