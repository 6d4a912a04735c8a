CONSTANTS Procs = 4 NHist = 1 BarrierEach = TRUE Modes = {FALSE}
CONSTANT Outs <- OutsOne
SPECIFICATION Spec
INVARIANT Complete OnlyOwn SizesMatch
