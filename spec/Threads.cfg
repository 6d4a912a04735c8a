SPECIFICATION Spec
CONSTANTS T = 3  N = 3
CONSTANT AtomicTake = TRUE
CONSTANT LockHist = TRUE
CONSTANT LockTrack = TRUE
INVARIANTS NothingLost OwnSample Exclusive
PROPERTY Ends
