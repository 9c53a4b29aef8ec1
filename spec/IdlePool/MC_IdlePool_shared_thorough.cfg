INIT Init
NEXT Next
CONSTANTS
  P = {1, 2, 9}
  Main = 9
  S = {1}
  N = 2
  MaxDepth = 2
  Privates = FALSE
  Ctx = TRUE
  Threads = FALSE
  Gone = FALSE
  Workers = FALSE
  Nested = FALSE
INVARIANTS Once NeverForgotten NoDangling DeadIsIdle NoImmortals
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
