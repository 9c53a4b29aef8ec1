INIT Init
NEXT Next
CONSTANTS
  N = 2
  Tags <- MoreTags
  ValSet <- SomeVals
  Junk <- MoreJunk
INVARIANTS InRange InOrder Whole Always Same
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
