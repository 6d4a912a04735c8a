CONSTANTS Procs = 4 NHist = 3 BarrierEach = TRUE Modes = {TRUE, FALSE}
CONSTANT Outs <- OutsNone
SPECIFICATION Spec
INVARIANT Complete OnlyOwn SizesMatch
PROPERTY Ends
