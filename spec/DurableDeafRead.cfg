SPECIFICATION Spec
CONSTANTS
  Blocks = 2
  Pieces = {1, 2, 3}
  Faults = 1
  HeedRead = FALSE
  HeedWrite = TRUE
  HeedClose = TRUE
INVARIANTS Whole Unprovoked

CHECK_DEADLOCK FALSE
