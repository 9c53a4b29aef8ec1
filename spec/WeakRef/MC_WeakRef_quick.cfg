INIT Init
NEXT Next
CONSTANTS
  O = {1, 2}
  R = {1, 2}
  MaxRefs = 2
  MaxWRefs = 2
  MaxDepth = 1
INVARIANT Inv
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
