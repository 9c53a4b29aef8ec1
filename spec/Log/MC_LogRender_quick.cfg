INIT Init
NEXT Next
CONSTANT Funcs <- SomeFuncs
CONSTANT Funcs2 <- None2
INVARIANTS Faithful
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
