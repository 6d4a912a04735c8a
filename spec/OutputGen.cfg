CONSTANT MaxCalls = 8
CONSTANT Say = TRUE
INIT Init
NEXT Next
INVARIANTS Tables SourcesLaw TracksLaw PathsLaw CountLaw Report
CHECK_DEADLOCK FALSE
