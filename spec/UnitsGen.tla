------------------------------ MODULE UnitsGen ------------------------------
(* Laws of the unit system, and the names that a user may give.             *)
EXTENDS Units, Sequences, Integers, TLC
VARIABLE name
Letters == {"S", "I", "s", "i", " ", "x", "1"}
Init == name \in {<<>>} \cup {<<"cgs">>, <<"Gaussian">>, <<"mks">>, <<"schwinger">>, <<"SI units">>, <<"S.I.">>}
Next == Len(name) < 3 /\ (IF name = <<>> THEN TRUE ELSE name[1] \in Letters) /\ \E c \in Letters : name' = Append(name, c)
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE Head(s) \o Text(Tail(s))
\* a field over a length, times the charge, is an energy; and so on
ASSUME WorkLaw == Close(RMul(RMul(SI.efield, Qe), SI.length), SI.energy)
ASSUME LightLaw == Close(SI.length, RMul(C, SI.time)) /\ Close(SI.efield, RMul(C, SI.bfield))
ASSUME MassLaw == Close(SI.energy, RMul(C, SI.momentum)) /\ Close(RMul(SI.momentum, SI.length), HBar)
\* the units are those of a reduced Compton wavelength
ASSUME ComptonLaw == Close(SI.length, RDiv(LCompton, RMul(2, PiIs)))
ASSUME FineLaw == Close(Fine, RDiv(RSq(Qe), RMul(RMul(4, RMul(PiIs, Eps0)), RMul(HBar, C))))
Emit == PrintT(<<"CMD", Text(name)>>)
=============================================================================
