INIT Init
NEXT Next
CONSTANTS
  N = 3
  Tags <- SomeTags
  ValSet <- SomeVals
  Junk <- SomeJunk
INVARIANTS InRange InOrder Whole Always Same
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
