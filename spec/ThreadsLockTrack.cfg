SPECIFICATION Spec
CONSTANTS T = 2  N = 2
CONSTANT AtomicTake = TRUE
CONSTANT LockHist = TRUE
CONSTANT LockTrack = FALSE
INVARIANTS NothingLost
