INIT Init
NEXT Next
CONSTANTS
  N = 4
  A <- More
  B <- MoreBases
INVARIANTS Wider Blank Spaced
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
