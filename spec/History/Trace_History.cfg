INIT Init
NEXT Next
INVARIANTS Bounded Ordered
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
