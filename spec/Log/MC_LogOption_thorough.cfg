INIT Init
NEXT Next
INVARIANTS Clear Valid
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
