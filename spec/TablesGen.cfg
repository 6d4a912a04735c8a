INIT Init
NEXT Next
INVARIANTS Shape RowEnds Distribution PhotonPhysics PairPhysics RatePhysics PairRatePhysics DragPhysics SampleBounds Emit
CHECK_DEADLOCK FALSE
