CONSTANTS Pieces = 3
          MaxSteps = 4
          Replaces = TRUE
          Begins = TRUE
          ChecksFirst = TRUE
          Say = FALSE
SPECIFICATION Spec
INVARIANTS AfterRun Histories
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
