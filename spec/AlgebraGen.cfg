INIT Init
NEXT Next
INVARIANTS Lawful Orthogonal Emit
CHECK_DEADLOCK FALSE
