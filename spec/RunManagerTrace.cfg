INIT Init
NEXT Next
CONSTANT Judge <- ManagerVerdict
INVARIANT Conforms
CHECK_DEADLOCK FALSE
