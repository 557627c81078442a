INIT Init
NEXT Next
INVARIANT HashConsed
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
