INIT Init
NEXT Next
INVARIANTS LBounded LOrdered
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
