INIT Init
NEXT Next
CONSTANT Judge <- ThreadsVerdict
INVARIANT Conforms
CHECK_DEADLOCK FALSE
