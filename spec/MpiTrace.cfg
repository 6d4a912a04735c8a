INIT Init
NEXT Next
CONSTANT Judge <- MpiVerdict
INVARIANT Conforms
CHECK_DEADLOCK FALSE
