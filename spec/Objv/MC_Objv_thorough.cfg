INIT Init
NEXT Next
CONSTANTS
  V = {1, 2}
  O = {1, 2, 3}
  N = 3
INVARIANTS Absent NoGhosts
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
