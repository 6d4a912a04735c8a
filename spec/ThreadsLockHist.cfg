SPECIFICATION Spec
CONSTANTS T = 2  N = 2
CONSTANT AtomicTake = TRUE
CONSTANT LockHist = FALSE
CONSTANT LockTrack = TRUE
INVARIANTS NothingLost
