CONSTANTS Procs = 5 NHist = 3 BarrierEach = TRUE Modes = {TRUE, FALSE}
CONSTANT Outs <- OutsMixed
CONSTANT Log <- LogWho
INIT Init
NEXT Next
INVARIANT Report
