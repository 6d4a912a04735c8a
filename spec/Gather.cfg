CONSTANTS Procs = 3 NHist = 1 BarrierEach = TRUE Modes = {TRUE, FALSE}
CONSTANT Outs <- OutsOne
SPECIFICATION Spec
INVARIANT Complete OnlyOwn SizesMatch
