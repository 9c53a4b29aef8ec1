INIT Init
NEXT Next
CONSTANTS
  N = 3
  A <- Few
  B <- FewBases
INVARIANTS Wider Blank Spaced
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
