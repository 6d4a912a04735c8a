INIT Init
NEXT Next
INVARIANTS Inertia Isotropy ChargeSymmetry Work Gyration Quantum Light Rest Emit
CHECK_DEADLOCK FALSE
