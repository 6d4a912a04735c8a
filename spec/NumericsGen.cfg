INIT Init
NEXT Next
CONSTANTS Grid = {0, 1, 3, 4}
 Values = {0, 2, 5}
INVARIANTS Through Between Emit
CHECK_DEADLOCK FALSE
