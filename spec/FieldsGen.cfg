INIT Init
NEXT Next
INVARIANTS Wave Bounded Shifted Reversed Emit
CHECK_DEADLOCK FALSE
