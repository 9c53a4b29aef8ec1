INIT Init
NEXT Next
CONSTANTS
  N = 3
  Vals <- Extreme
  MaxRefs = 2
INVARIANTS TypeOK OneWay Laws
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
