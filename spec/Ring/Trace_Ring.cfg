INIT Init
NEXT Next
CONSTANT Unique = FALSE
INVARIANTS TypeOK Bounded NothingLeft
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
