INIT Init
NEXT Next
CONSTANTS
  I = {1, 2, 3}
  MaxRefs = 2
  Kinds <- KindsQ
  Lens = {1, 3}
INVARIANTS NeverEmpty Kept Sound Reachable
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
