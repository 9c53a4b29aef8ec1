INIT Init
NEXT Next
CONSTANTS
  P = {1, 9}
  Main = 9
  S = {}
  N = 1
  MaxDepth = 1
  Privates = TRUE
  Ctx = TRUE
  Threads = TRUE
  Gone = FALSE
  Workers = FALSE
  Nested = FALSE
INVARIANTS Once NeverForgotten NoDangling DeadIsIdle NoImmortals
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
