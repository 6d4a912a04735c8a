------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* The electromagnetic field of each kind of configuration at time t and   *)
(* place x.  Frames: R is the shortest rotation of the direction of travel  *)
(* onto z; fields are computed in the frame of the beam and turned back.    *)
(***************************************************************************)
EXTENDS Vec
LOCAL INSTANCE Integers
LOCAL INSTANCE TLC

Pi == RDec("3.141592653589793")
Zax == <<0, 0, 1>>

Axis(f) == IF f.kind = "plane" THEN VNorm(f.dir) ELSE VNorm(VSub(f.focus, f.start))
\* A beam travelling against z is turned by half a turn; about which of the
\* two transverse axes, f.half = "x" or "y", is not determined by the
\* configuration, so that behaviours with either are correct
Backward(f) == RLt(RAdd(1, Axis(f)[3]), RDec("1e-9"))
HalfTurn(h, v) == IF h = "x" THEN <<v[1], RNeg(v[2]), RNeg(v[3])>> ELSE <<RNeg(v[1]), v[2], RNeg(v[3])>>
ToBeam(f, v) == IF Backward(f) THEN HalfTurn(f.half, v) ELSE Rotate(Axis(f), Zax, v)
FromBeam(f, v) == IF Backward(f) THEN HalfTurn(f.half, v) ELSE Rotate(Zax, Axis(f), v)
WaveNum(f) == RDiv(RMul(2, Pi), f.lam)
Rayleigh(f) == RDiv(RMul(WaveNum(f), RSq(f.waist)), 2)
StartToFocus(f) == VMag(VSub(f.focus, f.start))

\* Amplitude of the plane wave and of the paraxial gaussian beam; along is the
\* coordinate along the axis and r2 the squared distance from it
PlanePhase(f, t, along) == RMul(RSub(along, t), WaveNum(f))
PlaneAmp(f, t, along) == RMul(f.max, RCos(PlanePhase(f, t, along)))

Waist(f, along) == RMul(f.waist, RSqrt(RAdd(1, RSq(RDiv(along, Rayleigh(f))))))
\* 1 / radius of curvature of the wave fronts
Curv(f, along) == RDiv(along, RAdd(RSq(along), RSq(Rayleigh(f))))
\* the pulse is at the start at time zero, so the distance start-focus away
\* from the focus, and moves with the speed of light
Envelope(f, t, along) ==
    RExp(RNeg(RSq(RDiv(RSub(RSub(t, StartToFocus(f)), along), f.tau))))
GaussPhase(f, along, r2) == RMul(WaveNum(f), RAdd(along, RHalf(RMul(r2, Curv(f, along)))))
GaussAmp(f, t, along, r2) ==
    LET w == Waist(f, along)
    IN  RMul(RMul(f.max, RDiv(f.waist, w)),
             RMul(RMul(RExp(RNeg(RDiv(r2, RSq(w)))), RCos(GaussPhase(f, along, r2))), Envelope(f, t, along)))

Linear(f, amp) ==
    [e |-> FromBeam(f, VScale(amp, <<RCos(f.pol), RSin(f.pol), 0>>)),
     b |-> FromBeam(f, VScale(amp, <<RNeg(RSin(f.pol)), RCos(f.pol), 0>>))]

\* Tightly focused beam to fourth order in the diffraction angle
\* (Salamin, Fields of a Gaussian beam beyond the paraxial approximation)
FocusPhase(f, along, r2) == RMul(WaveNum(f), RSub(along, RHalf(RMul(r2, Curv(f, along)))))
Focused(f, t, x) ==
    LET p == ToBeam(f, VSub(x, f.focus))
        along == p[3]
        r2 == RAdd(RSq(p[1]), RSq(p[2]))
        w == Waist(f, along)
        xi == RDiv(p[1], f.waist)  up == RDiv(p[2], f.waist)
        rho2 == RDiv(r2, RSq(f.waist))
        rho4 == RSq(rho2)  rho6 == RMul(rho4, rho2)  rho8 == RSq(rho4)
        psiG == RAtan(RDiv(along, Rayleigh(f)))
        phi == FocusPhase(f, along, r2)
        amp == RMul(f.max, RMul(RExp(RNeg(RDiv(r2, RSq(w)))), Envelope(f, t, along)))
        eps == RDiv(f.waist, Rayleigh(f))
        e2 == RSq(eps)  e3 == RMul(e2, eps)  e4 == RSq(e2)
        S(k) == RMul(RPow(RDiv(f.waist, w), k), RSin(RAdd(phi, RMul(k, psiG))))
        C(k) == RMul(RPow(RDiv(f.waist, w), k), RCos(RAdd(phi, RMul(k, psiG))))
        D(a, k) == RDiv(a, k)
        ex == RAdd(S(1), RAdd(
                RMul(e2, RSub(RMul(RSq(xi), S(3)), D(RMul(rho4, S(4)), 4))),
                RMul(e4, RAdd(RSub(D(S(3), 8), D(RMul(rho2, S(4)), 4)),
                         RAdd(RSub(RNeg(D(RMul(RMul(rho2, RSub(rho2, RMul(16, RSq(xi)))), S(5)), 16)),
                                   D(RMul(RMul(rho4, RAdd(rho2, RMul(2, RSq(xi)))), S(6)), 8)),
                              D(RMul(rho8, S(7)), 32))))))
        ey == RMul(RMul(xi, up), RAdd(RMul(e2, S(3)), RMul(e4, RSub(RMul(rho2, S(5)), D(RMul(rho4, S(6)), 4)))))
        ez == RMul(xi, RAdd(RMul(eps, C(2)),
                RMul(e3, RSub(RAdd(RNeg(D(C(3), 2)), RMul(rho2, C(4))), D(RMul(rho4, C(5)), 4)))))
        by == RAdd(S(1), RAdd(
                RMul(e2, RSub(D(RMul(rho2, S(3)), 2), D(RMul(rho4, S(4)), 4))),
                RMul(e4, RAdd(RSub(RAdd(RAdd(RNeg(D(S(3), 8)), D(RMul(rho2, S(4)), 4)),
                                        D(RMul(RMul(5, rho4), S(5)), 16)),
                                   D(RMul(rho6, S(6)), 4)),
                              D(RMul(rho8, S(7)), 32)))))
        bz == RMul(up, RAdd(RMul(eps, C(2)),
                RMul(e3, RSub(RAdd(D(C(3), 2), D(RMul(rho2, C(4)), 2)), D(RMul(rho4, C(5)), 4)))))
        c == RCos(f.pol)  s == RSin(f.pol)
        Turn(vx, vy, vz) == <<RSub(RMul(c, vx), RMul(s, vy)), RAdd(RMul(s, vx), RMul(c, vy)), vz>>
    IN  [e |-> FromBeam(f, VScale(amp, Turn(ex, ey, ez))),
         b |-> FromBeam(f, VScale(amp, Turn(0, by, bz)))]

Along(f, x) == VDot(x, Axis(f))

FieldAt(f, t, x) ==
    CASE f.kind = "static" -> [e |-> f.e, b |-> f.b]
      [] f.kind = "plane" -> Linear(f, PlaneAmp(f, t, Along(f, x)))
      [] f.kind = "gaussian" ->
            LET r == VSub(x, f.focus)
                p == ToBeam(f, r)
            IN  Linear(f, GaussAmp(f, t, p[3], RAdd(RSq(p[1]), RSq(p[2]))))
      [] f.kind = "focusing" -> Focused(f, t, x)
      [] f.kind = "probe" ->
            LET s == VDot(f.g, x)
            IN  [e |-> VAdd(VAdd(f.e0, VScale(t, f.e1)), VScale(s, f.e2)),
                 b |-> VAdd(VAdd(f.b0, VScale(t, f.b1)), VScale(s, f.b2))]
\* the two readings of a backward beam, otherwise one
Readings(f) == IF f.kind \in {"static", "probe"} \/ ~Backward(f) THEN {f}
               ELSE {f @@ [half |-> "x"], f @@ [half |-> "y"]}
\* phase of the wave at x: rounding grows with it
PhaseAt(f, t, x) ==
    CASE f.kind = "plane" -> RMul(WaveNum(f), RAdd(VMag(x), RAbs(t)))
      [] f.kind \in {"gaussian", "focusing"} ->
            RMul(WaveNum(f), RAdd(VMag(x), RAdd(VMag(f.focus), RDiv(VMag2(VSub(x, f.focus)), Rayleigh(f)))))
      [] OTHER -> 0

\* how far a computed field may be from the exact one
FieldTol(f, t, x) ==
    IF f.kind = "static" THEN 0
    ELSE RAdd(RDec("4e-15"), RMul(f.max, RAdd(RDec("2e-9"), RMul(RDec("3e-12"), PhaseAt(f, t, x)))))
FieldClose(a, b, tol) == \A i \in I3 : RClose(a[i], b[i], 0, tol)
=============================================================================
