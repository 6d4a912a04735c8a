CONSTANTS Procs = 3 NHist = 2 BarrierEach = TRUE Modes = {FALSE}
CONSTANT Outs <- OutsMixed
SPECIFICATION Spec
INVARIANT Complete OnlyOwn SizesMatch
