INIT Init
NEXT Next
INVARIANT TypeOK
INVARIANT SavedSuperset
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
