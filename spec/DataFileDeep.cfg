CONSTANTS MaxCalls = 3
          MaxOpens = 3
SPECIFICATION Spec
INVARIANTS PlacedLaw Report
PROPERTY Kept
CHECK_DEADLOCK FALSE
