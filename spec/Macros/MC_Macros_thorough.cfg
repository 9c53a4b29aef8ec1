INIT Init
NEXT Next
CONSTANTS
  Maxes <- Minus
  Asserted <- MinusA
  Levels <- Some
  Levels0 <- Some
INVARIANTS Bounded Obeys Nested Same Silent Truthful Opposite
VIEW View
CHECK_DEADLOCK FALSE
