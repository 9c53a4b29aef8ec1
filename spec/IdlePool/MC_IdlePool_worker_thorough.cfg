INIT Init
NEXT Next
CONSTANTS
  P = {1, 2, 9}
  Main = 9
  S = {}
  N = 3
  MaxDepth = 1
  Privates = FALSE
  Ctx = FALSE
  Threads = FALSE
  Gone = FALSE
  Workers = TRUE
  Nested = FALSE
INVARIANTS Once NeverForgotten NoDangling DeadIsIdle NoImmortals
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
