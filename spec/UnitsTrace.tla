----------------------------- MODULE UnitsTrace -----------------------------
EXTENDS Units, Observed
Tight == RDec("1e-13")
Verdict(e) ==
    CASE e.op = "units" -> IF e.name \notin Accepted
            THEN FirstBroken(<<
                <<"unknown name refused", ~e.built /\ e.sig = 0 /\ e.exit > 0>>,
                <<"with a message", e.said>> >>)
            ELSE FirstBroken(<<
                <<"known name accepted", e.built /\ e.sig = 0 /\ e.exit = 0>>,
                <<"frequency", Close(e.freq, SI.freq)>>, <<"time", Close(e.time, SI.time)>>, <<"length", Close(e.length, SI.length)>>,
                <<"electric field", Close(e.efield, SI.efield)>>, <<"magnetic field", Close(e.bfield, SI.bfield)>>,
                <<"momentum", Close(e.momentum, SI.momentum)>>, <<"energy", Close(e.energy, SI.energy)>>,
                <<"nanosecond", Close(e.g4time, SI.g4time)>>, <<"millimetre", Close(e.g4length, SI.g4length)>>, <<"MeV", Close(e.g4energy, SI.g4energy)>>,
                <<"light speed", RClose(RDiv(e.length, e.time), C, Tight, 0)>>,
                <<"time is one over frequency", RClose(RMul(e.time, e.freq), 1, Tight, 0)>>,
                <<"energy over momentum", RClose(RDiv(e.energy, e.momentum), C, Tight, 0)>>,
                <<"electric over magnetic", RClose(RDiv(e.efield, e.bfield), C, Tight, 0)>>,
                <<"work of the field over a length is the energy", RClose(RMul(RMul(RMul(e.g4energy, e.energy), RDec("1e-6")), RMul(e.efield, e.length)), e.energy, Tight, 0)>> >>)
      [] e.op = "constants" -> FirstBroken(<<
                <<"pi", RClose(e.pi, PiIs, RDec("1e-11"), 0)>>, <<"e", RClose(e.e, EulerIs, RDec("1e-11"), 0)>>,
                <<"alpha", Close(e.alpha, Fine)>>, <<"c", REq(e.c, C)>>, <<"me", Close(e.me, Me)>>, <<"qe", Close(e.qe, Qe)>>,
                <<"hbar", Close(e.hbar, HBar)>>, <<"Compton wavelength", Close(e.lcomp, LCompton)>>, <<"eps0", Close(e.eps0, Eps0)>>,
                <<"Schwinger field", Close(e.eschw, ESchwinger)>> >>)
      [] OTHER -> "unexpected event " \o e.op
=============================================================================
