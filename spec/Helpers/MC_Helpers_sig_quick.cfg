INIT Init
NEXT Next
CONSTANTS
  NS = 2
  NV = 2
  MaxConn = 3
  MaxNext = 4
  MaxDepth = 4
  Signals = TRUE
  Sources = FALSE
INVARIANT Inv
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
