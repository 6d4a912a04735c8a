--------------------------- MODULE ProcessesTrace ---------------------------
(***************************************************************************)
(* One observed interaction: particle before and after, new particles, and *)
(* the uniform draws the code consumed.  The draws are only told apart by  *)
(* what they are used for: the observation conforms if some assignment of  *)
(* draws to uses explains it.                                              *)
(***************************************************************************)
EXTENDS Processes, Observed

Rel == RDec("1e-9")
F(e) == FieldAt(e.f, e.pre.t, e.pre.x)
Eq(a, b, scale) == RClose(a, b, Rel, RMul(Rel, scale))
\* a new optical depth is exponentially distributed with mean one
DepthOf(od, u) == \/ RClose(od, RNeg(RLn(RSub(1, u))), RDec("1e-12"), RDec("1e-15"))
                  \/ RClose(od, RNeg(RLn(u)), RDec("1e-12"), RDec("1e-15"))
Draws(e) == 1..Len(e.u)
SameSelf(a, b) == /\ RSame(a.m, b.m) /\ RSame(a.q, b.q) /\ RSame(a.w, b.w) /\ a.name = b.name /\ a.trk = b.trk
                  /\ a.x = b.x /\ RSame(a.t, b.t)
SameTrack(a, b) == a.nx = b.nx /\ a.np = b.np /\ a.nt = b.nt /\ a.ng = b.ng
Untouched(a, b) == SameSelf(a, b) /\ a.p = b.p /\ a.alive = b.alive /\ RSame(a.od, b.od) /\ SameTrack(a, b)

Born(e, k) == /\ k.x = e.pre.x /\ RSame(k.t, e.pre.t) /\ k.alive /\ k.trk = e.track
              /\ k.nx = 0 /\ k.np = 0 /\ k.nt = 0 /\ k.ng = 0
PhotonBorn(e, k, energy, weight) ==
    /\ k.name = "Photon" /\ Born(e, k)
    /\ RClose(k.en, energy, Rel, 0) /\ VClose(k.p, VScale(energy, VNorm(e.pre.p)), Rel, 0)
    /\ RClose(k.w, weight, Rel, 0)

\* ---------------------------------------------------------------- quantum
StochIdle(e, left) ==
    /\ e.new = <<>> /\ SameSelf(e.pre, e.post) /\ SameTrack(e.pre, e.post) /\ e.post.p = e.pre.p /\ e.post.alive
    /\ Eq(e.post.od, left, RSub(e.pre.od, left))
Recoils(e, k) ==
    /\ SameSelf(e.pre, e.post) /\ e.post.alive
    /\ VClose(e.post.p, VSub(e.pre.p, VScale(k, VNorm(e.pre.p))), RDec("1e-13"), RMul(Rel, k))
    /\ e.post.nx = e.pre.nx + (IF e.pre.trk THEN 1 ELSE 0)
Kept(e, k, i, r) ==
    /\ \E j \in Draws(e) \ {i, r} : RLe(e.u[j], e.frac)
    /\ RLt(e.emin, RMul(k, RDec("1.000000001")))
    /\ Len(e.new) = 1 /\ PhotonBorn(e, e.new[1], k, RDiv(e.pre.w, e.frac))
    /\ \E o \in Draws(e) \ {i, r} : DepthOf(e.new[1].od, e.u[o])
NotKept(e, k, i, r) ==
    /\ e.new = <<>>
    /\ \/ RLt(RMul(k, RDec("0.999999999")), e.emin)
       \/ REq(k, e.emin)
       \/ \E j \in Draws(e) \ {i, r} : RLe(e.frac, e.u[j])
StochEmits(e) ==
    \E i \in Draws(e) : \E r \in Draws(e) \ {i} :
        LET k == LeptonPhoton("stoch", e.pre, F(e), e.u[i])
        IN  /\ DepthOf(e.post.od, e.u[r])
            /\ Recoils(e, k)
            /\ Kept(e, k, i, r) \/ NotKept(e, k, i, r)
StochOk(e) ==
    LET d == LeptonDepth("stoch", e.dt, e.pre, F(e))
        left == RSub(e.pre.od, d)
    IN  \/ RLe(RNeg(RMul(Rel, d)), left) /\ StochIdle(e, left)
        \/ RLe(left, RMul(Rel, d)) /\ StochEmits(e)

\* ------------------------------------------------- classical, semiclassical
ContOk(e) ==
    /\ Untouched(e.pre, e.post)
    /\ LET eta == LeptonEta(e.pre, F(e))
       IN  IF REq(eta, 0) THEN e.new = <<>>
           ELSE LET w == RDiv(RMul(e.pre.w, LeptonDepth(e.proc, e.dt, e.pre, F(e))), e.frac)
                    K(i) == LeptonPhoton(e.proc, e.pre, F(e), e.u[i])
                IN  \/ e.new = <<>> /\ \E j \in Draws(e) : RLe(e.frac, e.u[j])
                    \/ /\ e.new = <<>>
                       /\ \E j \in Draws(e) : \E i \in Draws(e) \ {j} :
                             RLe(e.u[j], e.frac) /\ RLe(RMul(K(i), RDec("0.999999999")), e.emin)
                    \/ /\ Len(e.new) = 1
                       /\ \E j \in Draws(e) : \E i \in Draws(e) \ {j} : \E o \in Draws(e) \ {i, j} :
                             /\ RLe(e.u[j], e.frac) /\ RLt(e.emin, RMul(K(i), RDec("1.000000001")))
                             /\ PhotonBorn(e, e.new[1], K(i), w)
                             /\ DepthOf(e.new[1].od, e.u[o])

\* ------------------------------------------------------------ pair creation
LeptonBorn(e, k, energy) ==
    /\ Born(e, k) /\ REq(k.m, 1) /\ RSame(k.w, e.pre.w)
    /\ RClose(k.en, energy, Rel, RMul(RDec("1e-12"), e.pre.en)) /\ RLe(RDec("0.999999999"), k.en)
    /\ VClose(k.p, LeptonMomentum(energy, VNorm(e.pre.p)), Rel, RMul(RDec("1e-7"), 1))
    /\ \E o \in Draws(e) : DepthOf(k.od, e.u[o])
PairBorn(e, a, b) ==
    /\ {a.name, b.name} = {"Electron", "Positron"} /\ REq(RAdd(a.q, b.q), 0)
    /\ a.name = "Electron" => REq(a.q, -1)
    /\ a.name = "Positron" => REq(a.q, 1)
    /\ RClose(RAdd(a.en, b.en), e.pre.en, RDec("1e-11"), 0)
    /\ \E i \in Draws(e) :
          LET s == Shares(VMag(e.pre.p), SplitAt(PhotonChi(e.pre.p, F(e)), e.u[i]))
          IN  \/ LeptonBorn(e, a, s[1]) /\ LeptonBorn(e, b, s[2])
              \/ LeptonBorn(e, a, s[2]) /\ LeptonBorn(e, b, s[1])
PairOk(e) ==
    LET chi == PhotonChi(e.pre.p, F(e))
    IN  IF ~PairPossible(e.pre, chi) THEN Untouched(e.pre, e.post) /\ e.new = <<>>
        ELSE LET d == PairDepth(e.dt, chi, VMag(e.pre.p))  left == RSub(e.pre.od, d)
             IN  \/ RLe(RNeg(RMul(Rel, d)), left) /\ StochIdle(e, left)
                 \/ /\ RLe(left, RMul(Rel, d))
                    /\ SameSelf(e.pre, e.post) /\ SameTrack(e.pre, e.post) /\ ~e.post.alive
                    /\ Len(e.new) = 2 /\ PairBorn(e, e.new[1], e.new[2])

Concerned(e) == e.pre.alive /\ (Massless(e.pre) <=> e.proc = "pair")
Verdict(e) ==
    CASE e.op = "proc" -> FirstBroken(<<
            <<"the particle itself", SameSelf(e.pre, e.post)>>,
            <<"not concerned", Concerned(e) \/ (e.new = <<>> /\ Untouched(e.pre, e.post))>>,
            <<"quantum emission", Concerned(e) /\ e.proc = "stoch" => StochOk(e)>>,
            <<"continuous emission", Concerned(e) /\ e.proc \in {"cont", "classic"} => ContOk(e)>>,
            <<"pair creation", Concerned(e) /\ e.proc = "pair" => PairOk(e)>> >>)
      [] OTHER -> "unexpected event " \o e.op
=============================================================================
