INIT Init
NEXT Next
INVARIANT TypeOK
INVARIANT SavedSuperset
INVARIANT Written
CHECK_DEADLOCK FALSE
