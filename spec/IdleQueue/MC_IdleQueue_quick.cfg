INIT Init
NEXT Next
CONSTANTS
  Q = {1}
  N = 3
  MaxDepth = 2
  Tags = {1, 2}
  MaxRefs = 2
  Kinds <- Full
  Other = FALSE
  Cancels = TRUE
  Nested = FALSE
INVARIANTS TypeOK Place DestroyAtMostOnce NotBeforeItsTime InOrder Quiet DestroyedInTheEnd
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
