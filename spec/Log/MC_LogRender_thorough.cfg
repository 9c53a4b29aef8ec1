INIT Init
NEXT Next
CONSTANT Funcs <- AllFuncs
CONSTANT Funcs2 <- Some2
INVARIANTS Faithful
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
