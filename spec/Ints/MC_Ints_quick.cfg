INIT Init
NEXT Next
CONSTANTS
  I = {1, 2, 3}
  MaxRefs = 1
  Kinds <- KindsQ
  Lens = {3}
INVARIANTS NeverEmpty Kept Sound Reachable
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
