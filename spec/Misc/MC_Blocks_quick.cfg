INIT Init
NEXT Next
CONSTANTS
  N = 4
  A <- Two2
INVARIANTS XorLaws Fixes
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
