INIT Init
NEXT Next
CONSTANTS
  M = 2
  Levels <- Minus
  Levels0 <- Minus
  More = TRUE
INVARIANTS Iff Monotonic Nothing
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
