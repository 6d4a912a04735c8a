INIT Init
NEXT Next
CONSTANT Judge <- BeamVerdict
INVARIANT Conforms
CHECK_DEADLOCK FALSE
