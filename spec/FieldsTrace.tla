---------------------------- MODULE FieldsTrace -----------------------------
EXTENDS Fields, Observed

PointOk(f, p) ==
    LET want == FieldAt(f, p.t, p.x)  tol == FieldTol(f, p.t, p.x)
    IN  FieldClose(p.e, want.e, tol) /\ FieldClose(p.b, want.b, tol)

IsWave(f) == f.kind \in {"plane", "gaussian"}
\* transverse, perpendicular, equally strong, travelling along the axis
WaveOk(f, p) ==
    LET k == Axis(f)  tol == FieldTol(f, p.t, p.x)
    IN  /\ RClose(VDot(p.e, k), 0, 0, tol) /\ RClose(VDot(p.b, k), 0, 0, tol)
        /\ FieldClose(p.b, VCross(k, p.e), RMul(4, tol))
        /\ RClose(VMag(p.e), VMag(p.b), 0, RMul(4, tol))
PeakOk(f, p) == RLe(VMag(p.e), RMul(f.max, RDec("1.000001")))

Verdict(e) ==
    CASE e.op = "field" -> FirstBroken(<<
            <<"finite", \A i \in 1..Len(e.pts) : VFinite(e.pts[i].e) /\ VFinite(e.pts[i].b)>>,
            <<"light wave", IsWave(e.f) => \A i \in 1..Len(e.pts) : WaveOk(e.f, e.pts[i])>>,
            <<"no more than the peak field", IsWave(e.f) => \A i \in 1..Len(e.pts) : PeakOk(e.f, e.pts[i])>>,
            <<"field value", \E g \in Readings(e.f) : \A i \in 1..Len(e.pts) : PointOk(g, e.pts[i])>> >>)
      \* the same place half a period later
      [] e.op = "carrier" -> FirstBroken(<<
            <<"the wave travels with the pulse",
              FieldClose(e.pts[2].e, VNeg(e.pts[1].e), RMul(RDec("0.05"), e.f.max))>> >>)
      [] OTHER -> "unexpected event " \o e.op
=============================================================================
