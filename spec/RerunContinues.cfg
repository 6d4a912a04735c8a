CONSTANTS Pieces = 2
          MaxSteps = 2
          Replaces = TRUE
          Begins = FALSE
          ChecksFirst = TRUE
          Say = FALSE
SPECIFICATION Spec
INVARIANTS AfterRun Histories
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
