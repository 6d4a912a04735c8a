CONSTANTS MaxCalls = 3
          MaxOpens = 2
SPECIFICATION Spec
INVARIANTS PlacedLaw Report
PROPERTY Kept
CHECK_DEADLOCK FALSE
