------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* The simulation's units: Schwinger units of the electron.  The physical   *)
(* constants are the CODATA values; the reference units follow from them.   *)
(***************************************************************************)
EXTENDS Real64
C    == RDec("299792458")
Me   == RDec("9.1093837e-31")
Qe   == RDec("1.602176634e-19")
HBar == RDec("1.054571817e-34")
Eps0 == RDec("8.8541878128e-12")
LCompton == RDec("2.42631023867e-12")
Fine == RDec("7.2973525693e-3")
PiIs == RDec("3.14159265358979")
EulerIs == RDec("2.71828182845905")
\* field that gives an electron its rest energy over a reduced Compton length
ESchwinger == RDiv(RMul(RSq(Me), RMul(RSq(C), C)), RMul(Qe, HBar))

\* Names of unit systems and what they stand for
Accepted == {"SI", "si"}

\* the one consistent set built on a field, an elementary charge, a mass and c
System(field, q, m, c) ==
    LET freq == RDiv(RMul(field, q), RMul(m, c))
    IN  [freq |-> freq, time |-> RDiv(1, freq), length |-> RDiv(c, freq), efield |-> field, bfield |-> RDiv(field, c),
         momentum |-> RMul(m, c), energy |-> RMul(m, RSq(c)),
         g4time |-> RMul(RDec("1e-9"), freq), g4length |-> RDiv(RMul(RDec("1e-3"), freq), c),
         g4energy |-> RDiv(RMul(RDec("1e6"), q), RMul(m, RSq(c)))]
SI == System(ESchwinger, Qe, Me, C)
Quantities == DOMAIN SI
Close(a, b) == RClose(a, b, RDec("4e-7"), 0)     \* the code has the 2014 values
=============================================================================
