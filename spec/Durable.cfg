SPECIFICATION Spec
CONSTANTS
  Blocks = 2
  Pieces = {1, 2, 3}
  Faults = 2
  HeedRead = TRUE
  HeedWrite = TRUE
  HeedClose = TRUE
INVARIANTS Whole Unprovoked
PROPERTY Ends
CHECK_DEADLOCK FALSE
