---------------------------- MODULE MotionTrace -----------------------------
EXTENDS Motion, Observed

\* what a particle says about itself
SelfOk(p) ==
    /\ VFinite(p.x) /\ VFinite(p.p) /\ RFinite(p.t) /\ RFinite(p.en)
    /\ RClose(p.en, EnergyOf(p.m, p.p), RDec("1e-12"), 0)
    /\ RClose(p.gamma, GammaOf(p.m, p.p), RDec("1e-12"), 0)
    /\ VClose(p.dir, VNorm(p.p), 0, RDec("1e-12"))
    /\ IF Massless(p) THEN REq(p.beta, 1)
       ELSE RClose(RSq(p.beta), RSq(Beta(p.m, p.p)), RDec("1e-12"), RDec("1e-15"))
    /\ p.type = IF Massless(p) THEN "Photon" ELSE "Lepton"
    /\ \/ Massless(p) /\ p.name = "Photon"
       \/ ~Massless(p) /\ (REq(p.q, -1) => p.name = "Electron") /\ (REq(p.q, 1) => p.name = "Positron")

\* the step is close enough: rounding of the place and of the force times the step
CloseStep(model, f, dt, a, b) ==
    LET w == Moved(model, f, dt, a)
        F == IF Massless(a) THEN 0 ELSE VMaxAbs(VSub(w.p, a.p))
        top == IF f.kind \in {"plane", "gaussian", "focusing"} THEN RMul(dt, f.max) ELSE 0
        ph == RMul(RDec("1e-3"), PhaseAt(f, a.t, a.x))
        slack == RMul(RDec("2e-9"), RAdd(F, RMul(top, RAdd(1, ph))))
    IN  /\ VClose(b.p, w.p, RDec("1e-11"), slack)
        /\ VClose(b.x, w.x, RDec("1e-13"), RMul(RDec("2e-9"), RAbs(dt)))
        /\ RClose(b.t, w.t, RDec("1e-14"), 0)
Same(a, b) == a.x = b.x /\ a.p = b.p /\ RSame(a.t, b.t)
StepOk(model, f, dt, a, b) ==
    IF a.alive THEN \E g \in Readings(f) : CloseStep(model, g, dt, a, b) ELSE Same(a, b)
\* a step changes nothing else
Fixed(a, b) == /\ RSame(a.m, b.m) /\ RSame(a.q, b.q) /\ RSame(a.w, b.w) /\ RSame(a.od, b.od)
               /\ a.alive = b.alive /\ a.trk = b.trk /\ a.name = b.name
Recorded(a, b) == LET k == IF a.alive /\ a.trk THEN 1 ELSE 0
                  IN  b.nx = a.nx + k /\ b.np = a.np + k /\ b.nt = a.nt + k /\ b.ng = a.ng + k
\* row i of the track is the particle after its step i
TrackOk(st, h) ==
    LET k == IF st[1].alive /\ st[1].trk THEN Len(st) - 1 ELSE 0
    IN  /\ Len(h.x) = k /\ Len(h.p) = k /\ Len(h.t) = k /\ Len(h.g) = k
        /\ \A i \in 1..k : /\ h.x[i] = st[i+1].x /\ h.p[i] = st[i+1].p
                           /\ RSame(h.t[i], st[i+1].t) /\ RClose(h.g[i], st[i+1].gamma, RDec("1e-14"), 0)

Unit(d) == VNorm(d)
Verdict(e) ==
    CASE e.op = "push" -> FirstBroken(<<
            <<"what the particle says", \A i \in 1..Len(e.st) : SelfOk(e.st[i])>>,
            <<"one step of the equation of motion", \A i \in 1..(Len(e.st) - 1) : StepOk(e.model, e.f, e.dt, e.st[i], e.st[i+1])>>,
            <<"nothing else changes", \A i \in 1..(Len(e.st) - 1) : Fixed(e.st[i], e.st[i+1])>>,
            <<"one track entry per step", \A i \in 1..(Len(e.st) - 1) : Recorded(e.st[i], e.st[i+1])>>,
            <<"track entries", TrackOk(e.st, e.h)>> >>)
      [] e.op = "pushlist" -> FirstBroken(<<
            <<"same particles", Len(e.pre) = Len(e.post) /\ \A i \in 1..Len(e.pre) : Fixed(e.pre[i], e.post[i])>>,
            <<"every particle one step", \A i \in 1..Len(e.pre) : StepOk(e.model, e.f, e.dt, e.pre[i], e.post[i])>>,
            <<"one track entry", \A i \in 1..Len(e.pre) : Recorded(e.pre[i], e.post[i])>> >>)
      [] e.op = "make" -> FirstBroken(<<
            <<"what the particle says", SelfOk(e.p)>>,
            <<"energy", RClose(e.p.en, e.e, RDec("1e-12"), 0)>>,
            <<"direction", VClose(e.p.dir, Unit(e.d), 0, RDec("1e-9")) \/ REq(VMag(e.p.p), 0)>>,
            <<"place, weight, clock", e.p.x = e.x /\ RSame(e.p.w, e.w) /\ RSame(e.p.t, e.t) /\ e.p.alive /\ e.p.trk = e.track>>,
            <<"kind", IF e.kind = "photon" THEN Massless(e.p) ELSE RSame(e.p.q, e.q) /\ REq(e.p.m, 1)>>,
            <<"optical depth", RLe(0, e.p.od) /\ (\/ RClose(e.p.od, RNeg(RLn(RSub(1, e.u))), RDec("1e-12"), 0)
                                                \/ RClose(e.p.od, RNeg(RLn(e.u)), RDec("1e-12"), 0))>> >>)
      [] OTHER -> "unexpected event " \o e.op
=============================================================================
