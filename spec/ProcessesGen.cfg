INIT Init
NEXT Next
INVARIANTS EtaLaw ChiLaw PhotonLaw MonotoneLaw ShareLaw ShareBounds RateLaw ClassicalLaw Emit
CHECK_DEADLOCK FALSE
