INIT Init
NEXT Next
CONSTANT Most = 2
CONSTANT Say = TRUE
INVARIANTS Law Single Report
CHECK_DEADLOCK FALSE
