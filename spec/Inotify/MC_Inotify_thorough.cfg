INIT Init
NEXT Next
CONSTANTS
  D = {1, 2}
  WS = {1, 2}
  H = {1, 2}
  Masks <- M3
  MaxQ = 2
  MaxRefs = 2
  Count = TRUE
  MaxOps = 7
  MaxDispatch = 2
  FsOps = {"attr", "move", "rmdir"}
INVARIANTS QuietOutside OnlyMine NeverTwice NoObligationsToTheDead
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
