INIT Init
NEXT Next
CONSTANT Judge <- Verdict
INVARIANT Conforms
CHECK_DEADLOCK FALSE
