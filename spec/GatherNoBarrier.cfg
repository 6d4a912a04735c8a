CONSTANTS Procs = 3 NHist = 2 BarrierEach = FALSE Modes = {TRUE, FALSE}
CONSTANT Outs <- OutsNone
SPECIFICATION Spec
INVARIANT Complete OnlyOwn SizesMatch
