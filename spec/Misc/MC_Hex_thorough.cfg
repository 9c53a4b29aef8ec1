INIT Init
NEXT Next
CONSTANTS
  N = 4
  A <- Edges
INVARIANTS RoundTrip CaseOnly DumpSize
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
