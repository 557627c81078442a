INIT Init
NEXT Next
INVARIANT TypeOK
INVARIANT OptimumInRange
INVARIANT SavedIsPrefix
CHECK_DEADLOCK FALSE
