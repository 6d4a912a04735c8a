CONSTANTS Procs = 4 NHist = 2 BarrierEach = TRUE Modes = {TRUE}
CONSTANT Outs <- OutsMixed
SPECIFICATION Spec
INVARIANT Complete OnlyOwn SizesMatch
PROPERTY Ends
