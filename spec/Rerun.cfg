CONSTANTS Pieces = 2
          MaxSteps = 3
          Replaces = TRUE
          Begins = TRUE
          ChecksFirst = TRUE
          Say = TRUE
SPECIFICATION Spec
INVARIANTS AfterRun Histories
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
