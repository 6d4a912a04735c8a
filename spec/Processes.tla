----------------------------- MODULE Processes ------------------------------
(***************************************************************************)
(* What one particle may do in the field F = [e, b] at its place in one     *)
(* step, by process: photon emission (quantum: "stoch", semiclassical:      *)
(* "cont", classical: "classic") and pair creation ("pair").               *)
(***************************************************************************)
EXTENDS Motion, Tables

Sqrt3 == RSqrt(3)
\* optical depth used up in a step of length dt
EmissionDepth(dt, eta, h, gamma) ==
    RDiv(RMul(RMul(dt, Sqrt3), RMul(Alpha, RMul(eta, h))), RMul(RMul(2, Pi), gamma))
PairDepth(dt, chi, energy) == RDiv(RMul(RMul(dt, Alpha), RMul(chi, TAt(chi))), energy)

PhotonChi(p, F) ==
    LET n == VNorm(p)
        across == VSub(F.e, VScale(VDot(F.e, n), n))
    IN  RMul(RHalf(VMag(p)), VMag(VAdd(across, VCross(n, F.b))))

ClassicalH == RPow(10, RDec("0.7193"))
Weak == RDec("1e-12")          \* below this eta the classical rate is used
HOf(kind, eta) == IF kind = "classic" \/ RLt(eta, Weak) THEN ClassicalH ELSE HAt(eta)
\* classical spectrum: sampled at a small reference eta and scaled with eta^2
RefEta == RExp(Tab.hx[1])
ChiOf(kind, eta, u) ==
    IF kind = "classic" \/ (kind = "cont" /\ RLt(eta, Weak))
    THEN RMul(ChiAt(RefEta, u), RSq(RDiv(eta, RefEta)))
    ELSE ChiAt(eta, u)
PhotonEnergy(chi, gamma, eta) == RDiv(RMul(2, RMul(chi, gamma)), eta)

LeptonEta(part, F) == Eta(part.m, part.p, F.e, F.b)
LeptonDepth(kind, dt, part, F) ==
    LET eta == LeptonEta(part, F)
    IN  IF REq(eta, 0) THEN 0 ELSE EmissionDepth(dt, eta, HOf(kind, eta), Gamma(part.m, part.p))
LeptonPhoton(kind, part, F, u) ==
    LET eta == LeptonEta(part, F) IN PhotonEnergy(ChiOf(kind, eta, u), Gamma(part.m, part.p), eta)

\* energies of the two leptons: the sampled share, but at least the rest energy
Shares(energy, split) ==
    LET a == RMax(1, RMin(RMul(split, energy), RSub(energy, 1)))
    IN  <<a, RMax(1, RSub(energy, a))>>
LeptonMomentum(energy, n) == VScale(RSqrt(RSub(RSq(energy), 1)), n)
PairPossible(part, chi) == ~REq(chi, 0) /\ RLt(2, VMag(part.p))
=============================================================================
