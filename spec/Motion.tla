------------------------------- MODULE Motion -------------------------------
(***************************************************************************)
(* One step of one particle.  A particle is a record with mass m, charge q, *)
(* place x, momentum p, clock t, alive, trk (whether it keeps a track).     *)
(* Units: mass of the electron, speed of light one, elementary charge one.  *)
(***************************************************************************)
EXTENDS Fields
LOCAL INSTANCE Sequences
LOCAL INSTANCE Integers

Alpha == RDec("0.0072973525664")

Gamma(m, p) == RSqrt(RAdd(1, RDiv(VMag2(p), RSq(m))))
\* speed in units of c: |p| / (m gamma)
Beta(m, p) == RDiv(VMag(p), RMul(m, Gamma(m, p)))
\* field in the rest frame of the particle over the Schwinger field
Eta(m, p, e, b) ==
    LET n == VNorm(p)  g == Gamma(m, p)
        along == VDot(e, n)
        across == VSub(e, VScale(along, n))
        f == VAdd(across, VScale(Beta(m, p), VCross(n, b)))
    IN  RMul(g, RSqrt(RAdd(VMag2(f), RSq(RDiv(along, g)))))

Lorentz(m, q, p, e, b) ==
    VScale(q, VAdd(e, VScale(RDiv(1, RMul(m, Gamma(m, p))), VCross(p, b))))
\* quantum correction of the radiated power (Baier, Katkov and Strakhovenko)
QuantumFactor(eta) ==
    RPow(RAdd(1, RAdd(RMul(RDec("4.8"), RMul(RAdd(1, eta), RLn(RAdd(1, RMul(RDec("1.7"), eta))))),
                      RMul(RDec("2.44"), RSq(eta)))), RDiv(-2, 3))
Drag(model, m, p, e, b) ==
    LET eta == Eta(m, p, e, b)
        landau == RMul(RDiv(-2, 3), RMul(Alpha, RSq(eta)))
    IN  CASE model = "lorentz" -> VZero
          [] model = "landau" -> VScale(landau, VNorm(p))
          [] model = "modified" -> VScale(RMul(landau, QuantumFactor(eta)), VNorm(p))
Force(model, m, q, p, e, b) == VAdd(Lorentz(m, q, p, e, b), Drag(model, m, p, e, b))
Velocity(m, p) == VScale(RDiv(1, RMul(m, Gamma(m, p))), p)

\* slopes of place and momentum at time t for a particle at x with momentum p
Slope(model, f, part, t, x, p) ==
    LET F == FieldAt(f, t, x)
    IN  [x |-> Velocity(part.m, p), p |-> Force(model, part.m, part.q, p, F.e, F.b)]

\* classical fourth-order Runge-Kutta
Runge(model, f, dt, part) ==
    LET h == RHalf(dt)
        k1 == Slope(model, f, part, part.t, part.x, part.p)
        k2 == Slope(model, f, part, RAdd(part.t, h), VAdd(part.x, VScale(h, k1.x)), VAdd(part.p, VScale(h, k1.p)))
        k3 == Slope(model, f, part, RAdd(part.t, h), VAdd(part.x, VScale(h, k2.x)), VAdd(part.p, VScale(h, k2.p)))
        k4 == Slope(model, f, part, RAdd(part.t, dt), VAdd(part.x, VScale(dt, k3.x)), VAdd(part.p, VScale(dt, k3.p)))
        Mean(a, b, c, d) == VScale(RDiv(dt, 6), VAdd(VAdd(a, VScale(2, VAdd(b, c))), d))
    IN  [x |-> VAdd(part.x, Mean(k1.x, k2.x, k3.x, k4.x)), p |-> VAdd(part.p, Mean(k1.p, k2.p, k3.p, k4.p))]

Massless(part) == REq(part.m, 0)
Free(dt, part) == [x |-> VAdd(part.x, VScale(dt, VNorm(part.p))), p |-> part.p]

\* the particle one step later (the clock, place and momentum)
Moved(model, f, dt, part) ==
    IF ~part.alive THEN [x |-> part.x, p |-> part.p, t |-> part.t]
    ELSE LET s == IF Massless(part) THEN Free(dt, part) ELSE Runge(model, f, dt, part)
         IN  [x |-> s.x, p |-> s.p, t |-> RAdd(part.t, dt)]

EnergyOf(m, p) == IF REq(m, 0) THEN VMag(p) ELSE RMul(m, Gamma(m, p))
GammaOf(m, p) == IF REq(m, 0) THEN VMag(p) ELSE Gamma(m, p)
=============================================================================
