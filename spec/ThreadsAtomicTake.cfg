SPECIFICATION Spec
CONSTANTS T = 2  N = 2
CONSTANT AtomicTake = FALSE
CONSTANT LockHist = TRUE
CONSTANT LockTrack = TRUE
INVARIANTS NothingLost
