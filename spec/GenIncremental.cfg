INIT Init
NEXT Next
INVARIANT Written
INVARIANT InRange
CHECK_DEADLOCK FALSE
