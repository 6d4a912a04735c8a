SPECIFICATION Spec
CONSTANTS
  Addresses = {1, 2, 3, 4, 5, 6}
  Runs = 2
  Events = 2
  Born = 1
  SetUp = 1
  ForgetBorn = FALSE
  ForgetRun = FALSE
  Twice = TRUE
INVARIANTS NeverTwice Between Clean
CHECK_DEADLOCK FALSE
