INIT Init
NEXT Next
CONSTANTS
  Maxes <- Minus
  Asserted <- MinusA
  Levels = {0, 3}
  Levels0 = {0, 3}
INVARIANTS Bounded Obeys Nested Same Silent Truthful Opposite
VIEW View
CHECK_DEADLOCK FALSE
