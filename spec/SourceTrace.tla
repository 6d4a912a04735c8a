----------------------------- MODULE SourceTrace ----------------------------
EXTENDS Source, Observed

Idx(e) == 1..Len(e.x)
Amount(e) == e.single /\ Len(e.x) = (IF e.take < e.num THEN e.take ELSE e.num) /\ e.count = e.num
Identity(e) == \A i \in Idx(e) :
    /\ e.who[i] = Kind(e) /\ REq(e.w[i], 1) /\ REq(e.t[i], 0) /\ e.alive[i] /\ e.hist[i] = 0
    /\ REq(e.m[i], Mass(e))
    /\ REq(e.q[i], IF Kind(e) = "Electron" THEN -1 ELSE IF Kind(e) = "Positron" THEN 1 ELSE 0)
\* the energy is the total energy
Energies(e) == \A i \in Idx(e) : RFinite(e.en[i]) /\ RClose(e.en[i], EnergyOf(Mass(e), e.p[i]), RDec("1e-12"), 0)
Tiny(e) == RMul(RDec("1e-9"), RAdd(RDec("1e-3"), Size(e)))
\* there is no less than the rest energy: with less, or just that, it rests
Resting(e) == Distro(e) = "mono" /\ Mass(e) = 1 /\ RLe(e.e1, 1)
EnergySpread(e) ==
    CASE Resting(e) -> \A i \in Idx(e) : REq(e.en[i], 1) /\ \A k \in 1..3 : REq(e.p[i][k], 0)
      [] Distro(e) = "mono" \/ RSame(e.e1, e.e2) \/ (Distro(e) = "gaussian" /\ REq(e.e2, 0)) ->
            \A i \in Idx(e) : RClose(e.en[i], e.e1, RDec("1e-9"), 0)
      [] Distro(e) = "gaussian" -> StandardNormal(Scaled(e.en, e.e1, e.e2))
      [] OTHER -> Uniform01(Scaled(e.en, e.e1, RSub(e.e2, e.e1)))
Placed(e) ==
    LET s == Spots(e)
        Axis3(k, sd) == IF REq(sd, 0) THEN \A i \in Idx(e) : RClose(s[i][k], 0, 0, Tiny(e))
                        ELSE StandardNormal(Scaled(Column(s, k), 0, sd))
    IN  Axis3(1, e.dpos) /\ Axis3(2, e.dpos) /\ Axis3(3, e.dtau)
\* heads: polar angle normal (its sign is part of the azimuth), azimuth uniform
Theta(h) == LET s == RSqrt(RAdd(RSq(h[1]), RSq(h[2])))
            IN  IF RLe(h[3], 0) THEN RSub(RDiv(Pi, 2), RAtan(RDiv(h[3], s))) ELSE RAtan(RDiv(s, h[3]))
Headed(e) ==
    LET h == Heads(e)
        few == Len(h) < 100
    IN  IF REq(e.ddir, 0) THEN \A i \in Idx(e) : VClose(h[i], Zax, 0, RDec("1e-9"))
        ELSE LET th == TLCEval([i \in Idx(e) |-> RDiv(Theta(h[i]), e.ddir)])
                 s(i) == RSqrt(RAdd(RSq(h[i][1]), RSq(h[i][2])))
                 c1 == TLCEval([i \in Idx(e) |-> RDiv(h[i][1], s(i))])  s1 == TLCEval([i \in Idx(e) |-> RDiv(h[i][2], s(i))])
                 c2 == [i \in Idx(e) |-> RSub(RSq(c1[i]), RSq(s1[i]))]  s2 == [i \in Idx(e) |-> RMul(2, RMul(c1[i], s1[i]))]
                 half == RDec("0.5")
             IN  /\ \A i \in Idx(e) : RLt(th[i], 7)
                 /\ few \/ ( /\ MeanIs(Map(LAMBDA v : RSq(v), th), 1, 2)
                             /\ MeanIs(Map(LAMBDA v : RSq(RSq(v)), th), 3, 96)
                             /\ MeanIs(th, RSqrt(RDiv(2, Pi)), RSub(1, RDiv(2, Pi)))
                             /\ Fraction(th, LAMBDA v : RLt(v, 1), RDec("0.6826894921"))
                             /\ MeanIs(c1, 0, half) /\ MeanIs(s1, 0, half) /\ MeanIs(c2, 0, half) /\ MeanIs(s2, 0, half)
                             \* the azimuth does not depend on the polar angle
                             /\ MeanIs(Product(c1, th), 0, half) /\ MeanIs(Product(s1, th), 0, half) )
Independent(e) ==
    LET s == Spots(e)  h == Heads(e)
        x == Scaled(Column(s, 1), 0, e.dpos)  y == Scaled(Column(s, 2), 0, e.dpos)  z == Scaled(Column(s, 3), 0, e.dtau)
        u == [i \in Idx(e) |-> RMul(RDiv(h[i][1], e.ddir), 1)]  v == [i \in Idx(e) |-> RDiv(h[i][2], e.ddir)]
        en == IF Distro(e) = "gaussian" THEN Scaled(e.en, e.e1, e.e2)
              ELSE Scaled(e.en, RHalf(RAdd(e.e1, e.e2)), RDiv(RSub(e.e2, e.e1), RSqrt(12)))
        pos == ~REq(e.dpos, 0)  tau == ~REq(e.dtau, 0)  ang == ~REq(e.ddir, 0)
        spread == Distro(e) # "mono" /\ ~REq(e.e2, 0) /\ ~RSame(e.e1, e.e2)
    IN  /\ pos => Uncorrelated(x, y)
        /\ (pos /\ tau) => Uncorrelated(x, z) /\ Uncorrelated(y, z)
        /\ (pos /\ ang) => Uncorrelated(x, u) /\ Uncorrelated(y, v)
        /\ (tau /\ ang) => Uncorrelated(z, u)
        /\ (spread /\ tau) => Uncorrelated(en, z)
        /\ (spread /\ pos) => Uncorrelated(en, x)
        /\ (spread /\ ang) => Uncorrelated(en, u)
\* no two primaries share their draw
Distinct(e) ==
    /\ ~REq(e.dtau, 0) => \A i \in 1..(Len(e.x) - 1) : e.x[i] # e.x[i+1]
    /\ (Distro(e) # "mono" /\ ~REq(e.e2, 0) /\ ~RSame(e.e1, e.e2)) => \A i \in 1..(Len(e.x) - 1) : ~RSame(e.en[i], e.en[i+1])

Verdict(e) ==
    CASE e.op = "source" -> FirstBroken(<<
            <<"one particle per event", Amount(e)>>,
            <<"kind, weight, clock", Identity(e)>>,
            <<"energies", Energies(e)>>,
            <<"energy distribution", EnergySpread(e)>>,
            <<"place", Placed(e)>>,
            <<"direction", Resting(e) \/ Headed(e)>>,
            <<"independent draws", Len(e.x) > 100 /\ ~Resting(e) => Independent(e)>>,
            <<"own draw", Distinct(e)>> >>)
      [] e.op = "deplete" -> FirstBroken(<<
            <<"no crash", e.sig = 0>>,
            <<"never more than the source has", IF Kind(e) = "none" THEN e.got = 0 ELSE e.got = (IF e.take < e.num THEN e.take ELSE e.num)>>,
            <<"one at a time", e.single>>,
            <<"asking for more is an error", (e.exit # 0) <=> (e.take > e.num \/ (Kind(e) = "none" /\ e.take > 0))>> >>)
      [] OTHER -> "unexpected event " \o e.op
=============================================================================
