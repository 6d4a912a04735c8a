CONSTANTS Pieces = 2
          MaxSteps = 2
          Replaces = TRUE
          Begins = TRUE
          ChecksFirst = FALSE
          Say = FALSE
SPECIFICATION Spec
INVARIANTS AfterRun Histories
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
