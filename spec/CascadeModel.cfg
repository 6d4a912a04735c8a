SPECIFICATION Spec
INVARIANTS ChargeLaw EnergyLaw ClockLaw TrackLaw StepsLaw TableLaw HistLaw LateLaw
PROPERTIES DeadLaw OnceLaw Ends
CHECK_DEADLOCK FALSE
