INIT Init
NEXT Next
CONSTANTS
  NS = 3
  NV = 2
  MaxConn = 3
  MaxNext = 5
  MaxDepth = 5
  Signals = TRUE
  Sources = FALSE
INVARIANT Inv
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
