INIT Init
NEXT Next
CONSTANTS
  P = {1, 9}
  Main = 9
  S = {1}
  N = 2
  MaxDepth = 2
  Privates = FALSE
  Ctx = FALSE
  Threads = FALSE
  Gone = FALSE
  Workers = FALSE
  Nested = TRUE
INVARIANTS Once NeverForgotten NoDangling DeadIsIdle NoImmortals
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
