INIT Init
NEXT Next
CONSTANT Depth = 5
INVARIANTS Forgets Emit
CHECK_DEADLOCK FALSE
