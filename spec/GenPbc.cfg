INIT Init
NEXT Next
INVARIANT Written
CHECK_DEADLOCK FALSE
