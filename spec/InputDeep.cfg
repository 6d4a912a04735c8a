INIT Init
NEXT Next
CONSTANT Odd = 2
CONSTANT Say = TRUE
INVARIANTS Law Report
CHECK_DEADLOCK FALSE
