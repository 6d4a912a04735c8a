----------------------------- MODULE MotionGen ------------------------------
(* Laws of the motion, on a small set of fields and momenta, and commands.   *)
EXTENDS Motion, Integers, Sequences, TLC
VARIABLES e, b, p, dt, q

Vs == {<<0, 0, 0>>, <<0, 0, 1>>, <<1, 0, 0>>, <<1, -1, 0>>}
Ps == {<<0, 0, 3>>, <<4, 1, -2>>, <<0, -1, 0>>, <<0, 0, 0>>}
Dts == {RDec("0.125"), RDec("0.5")}
\* fields in thousandths of the Schwinger field, momenta in tens of m c
F == [kind |-> "static", e |-> VScale(RDec("0.05"), e), b |-> VScale(RDec("0.05"), b)]
Part == [m |-> 1, q |-> q, x |-> <<1, 2, 3>>, p |-> VScale(10, p), t |-> 0, alive |-> TRUE, trk |-> TRUE]

Init == e \in Vs /\ b \in Vs /\ p \in Ps /\ dt \in Dts /\ q \in {1, -1}
Next == FALSE /\ UNCHANGED <<e, b, p, dt, q>>

Models == {"lorentz", "landau", "modified"}
S(m, f, part) == Runge(m, f, dt, part)
Cyc(v) == <<v[2], v[3], v[1]>>
CycF(f) == [f EXCEPT !.e = Cyc(f.e), !.b = Cyc(f.b)]
CycP(a) == [a EXCEPT !.x = Cyc(a.x), !.p = Cyc(a.p)]
Small == RDec("1e-12")

\* without a field nothing is felt
Inertia == (e = <<0, 0, 0>> /\ b = <<0, 0, 0>>) =>
    \A m \in Models : VClose(S(m, F, Part).p, Part.p, 0, Small)
\* space has no preferred axis
Isotropy == \A m \in Models :
    LET s == S(m, F, Part)  c == S(m, CycF(F), CycP(Part))
    IN  VClose(c.x, Cyc(s.x), RDec("1e-13"), 0) /\ VClose(c.p, Cyc(s.p), RDec("1e-13"), Small)
\* opposite charges in opposite fields do the same
ChargeSymmetry == \A m \in Models :
    LET s == S(m, F, Part)
        o == S(m, [F EXCEPT !.e = VNeg(F.e), !.b = VNeg(F.b)], [Part EXCEPT !.q = -q])
    IN  VClose(o.p, s.p, RDec("1e-13"), Small) /\ VClose(o.x, s.x, RDec("1e-13"), 0)
\* a magnetic field does no work, and drag only takes energy: least with the
\* quantum correction
Work == (e = <<0, 0, 0>>) =>
    LET L == VMag(S("lorentz", F, Part).p)  D == VMag(S("landau", F, Part).p)  M == VMag(S("modified", F, Part).p)
    IN  /\ RClose(L, VMag(Part.p), RDec("1e-9"), Small)
        /\ RLe(D, RAdd(M, Small)) /\ RLe(M, RAdd(L, Small))
\* gyration: the momentum turns by q B dt / gamma; halving the step divides the
\* error by about two to the fifth, as a fourth-order method must
Turned(dtt, part) ==
    LET bn == VNorm(F.b)  th == RNeg(RDiv(RMul(RMul(q, VMag(F.b)), dtt), Gamma(1, part.p)))
        par == VScale(VDot(part.p, bn), bn)  per == VSub(part.p, par)
    IN  VAdd(par, VAdd(VScale(RCos(th), per), VScale(RSin(th), VCross(bn, per))))
StrongF == [F EXCEPT !.b = VScale(400, F.b)]
Err(h) == VMag(VSub(Runge("lorentz", StrongF, h, Part).p,
        LET bn == VNorm(F.b)  th == RNeg(RDiv(RMul(RMul(q, VMag(StrongF.b)), h), Gamma(1, Part.p)))
            par == VScale(VDot(Part.p, bn), bn)  per == VSub(Part.p, par)
        IN  VAdd(par, VAdd(VScale(RCos(th), per), VScale(RSin(th), VCross(bn, per))))))
Gyration == (e = <<0, 0, 0>> /\ b # <<0, 0, 0>>) =>
    /\ VClose(S("lorentz", F, Part).p, Turned(dt, Part), 0, RDec("1e-9"))
    /\ LET a == Err(dt)  h == Err(RHalf(dt))
       IN  RLt(RDec("1e-10"), h) => RLt(RMul(20, h), a) /\ RLt(a, RMul(45, h))
\* the quantum correction lies between zero and one and falls with eta
Quantum == LET x == Eta(1, Part.p, F.e, F.b)
           IN  /\ RLt(0, QuantumFactor(x)) /\ RLe(QuantumFactor(x), 1)
               /\ RLe(QuantumFactor(RAdd(x, RDec("0.1"))), QuantumFactor(x))
\* massless particles go straight at the speed of light; the dead stay
Light == LET g == [Part EXCEPT !.m = 0, !.q = 0]  w == Moved("lorentz", F, dt, g)
         IN  (p # <<0, 0, 0>>) => RClose(VMag(VSub(w.x, g.x)), dt, RDec("1e-12"), 0) /\ w.p = g.p
Rest == LET g == [Part EXCEPT !.alive = FALSE]  w == Moved("landau", F, dt, g)
        IN  w.x = g.x /\ w.p = g.p /\ w.t = g.t
Emit == PrintT(<<"CMD", e, b, p, q, dt>>)
=============================================================================
