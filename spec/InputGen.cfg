INIT Init
NEXT Next
CONSTANT Odd = 1
CONSTANT Say = TRUE
INVARIANTS Law Report
CHECK_DEADLOCK FALSE
