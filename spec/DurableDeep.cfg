SPECIFICATION Spec
CONSTANTS
  Blocks = 3
  Pieces = {1, 2, 3, 4, 5}
  Faults = 4
  HeedRead = TRUE
  HeedWrite = TRUE
  HeedClose = TRUE
INVARIANTS Whole Unprovoked
PROPERTY Ends
CHECK_DEADLOCK FALSE
