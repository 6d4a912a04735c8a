SPECIFICATION Spec
CONSTANTS
  Blocks = 2
  Pieces = {1, 2, 3}
  Faults = 1
  HeedRead = TRUE
  HeedWrite = TRUE
  HeedClose = FALSE
INVARIANTS Whole Unprovoked

CHECK_DEADLOCK FALSE
