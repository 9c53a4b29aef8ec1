INIT Init
NEXT Next
CONSTANTS
  Q = {1, 2}
  N = 4
  MaxDepth = 2
  Tags = {1}
  MaxRefs = 1
  Kinds <- Full
  Other = TRUE
  Cancels = TRUE
  Nested = FALSE
INVARIANTS TypeOK Place DestroyAtMostOnce NotBeforeItsTime InOrder Quiet
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
