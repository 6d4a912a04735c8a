CONSTANTS Procs = 2 NHist = 3 BarrierEach = TRUE Modes = {TRUE, FALSE}
CONSTANT Outs <- OutsMixed
SPECIFICATION Spec
INVARIANT Complete OnlyOwn SizesMatch
PROPERTY Ends
