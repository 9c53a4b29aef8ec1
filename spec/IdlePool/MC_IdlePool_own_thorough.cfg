INIT Init
NEXT Next
CONSTANTS
  P = {1, 9}
  Main = 9
  S = {}
  N = 3
  MaxDepth = 2
  Privates = TRUE
  Ctx = FALSE
  Threads = FALSE
  Gone = FALSE
  Workers = FALSE
  Nested = FALSE
INVARIANTS Once NeverForgotten NoDangling DeadIsIdle NoImmortals
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
