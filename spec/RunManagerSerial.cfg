INIT Init
NEXT Next
CONSTANT Omp = FALSE
CONSTANT Say = TRUE
VIEW View
CONSTRAINT Few
INVARIANTS Protocol FractionLaw PairLaw ResultLaw
CHECK_DEADLOCK FALSE
