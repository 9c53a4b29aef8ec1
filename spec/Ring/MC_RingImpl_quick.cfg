INIT MCInit
NEXT Next
CONSTANTS
  Elem = {1, 2, 3}
  MaxAlloc = 7
  Reserved = {0, 1, 2, 3, 5, 7}
  Maxs <- MaxsThorough
INVARIANTS Layout
PROPERTY Refinement
CONSTRAINT Small
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
