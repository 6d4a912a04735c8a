SPECIFICATION Spec
CONSTANTS Size = 4
          Askers = 3
INVARIANTS Once All OnlyThenDead
CHECK_DEADLOCK FALSE
