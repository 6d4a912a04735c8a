---------------------------- MODULE ProcessesGen ----------------------------
(* Laws of the interactions for every eta or chi of a grid over the tables,  *)
(* and every draw of a grid, and commands that reproduce them in the code.   *)
EXTENDS Processes, TLC
VARIABLES kind, node, part, u, who

\* eta and chi at, between and near the ends of the table rows
Grid(axis) == {<<k, f>> : k \in 1..(Len(axis) - 1), f \in {RDec("0.001"), RDec("0.5"), RDec("0.999")}}
ValueAt(axis, g) == RPow(10, Mix(g[2], axis[g[1]], axis[g[1] + 1]))
Draw == {RDec("0"), RDec("0.001"), RDec("0.25"), RDec("0.5"), RDec("0.75"), RDec("0.999"), RDec("0.9999999999999999")}
Gammas == {RDec("1.2"), RDec("30"), RDec("20000")}

Init == /\ kind \in {"stoch", "cont", "classic", "pair"}
        /\ node \in Grid(IF kind = "pair" THEN Tab.splitx ELSE EtaAxis)
        /\ u \in Draw /\ part \in Gammas
        /\ who \in (IF kind = "pair" THEN {"photon"} ELSE {"electron", "positron"})
Next == FALSE /\ UNCHANGED <<kind, node, part, u, who>>

G == IF kind = "pair" THEN RAdd(1, part) ELSE part
Value == ValueAt(IF kind = "pair" THEN Tab.splitx ELSE EtaAxis, node)
\* a particle travelling along x and a magnetic field along z of the strength
\* that gives this eta or chi
P == <<IF kind = "pair" THEN G ELSE RSqrt(RSub(RSq(G), 1)), RDec("0"), RDec("0")>>
BField == LET unit == [e |-> VZero, b |-> <<0, 0, 1>>]
              m == IF kind = "pair" THEN PhotonChi(P, unit) ELSE Eta(1, P, unit.e, unit.b)
          IN  RDiv(Value, m)
F == [e |-> VZero, b |-> <<0, 0, BField>>]
Part == [m |-> 1, q |-> IF who = "electron" THEN -1 ELSE 1, p |-> P, x |-> VZero, t |-> 0]
Slack == RDec("1.000000001")

\* the quantum parameter does not depend on which field makes it
EtaLaw == kind # "pair" => RClose(LeptonEta(Part, F), Value, RDec("1e-9"), 0)
ChiLaw == kind = "pair" => RClose(PhotonChi(P, F), Value, RDec("1e-9"), 0)
\* a photon cannot have more than the lepton's energy
PhotonLaw == kind \in {"stoch", "cont"} =>
    LET k == LeptonPhoton(kind, Part, F, u) IN RLt(0, k) /\ RLe(k, RMul(G, Slack))
\* a larger draw gives a harder photon or a larger share
MonotoneLaw == kind # "pair" =>
    \A v \in Draw : RLe(u, v) => RLe(LeptonPhoton(kind, Part, F, u), RMul(LeptonPhoton(kind, Part, F, v), Slack))
ShareLaw == kind = "pair" =>
    LET s == Shares(G, SplitAt(Value, u))
    IN  RClose(RAdd(s[1], s[2]), G, RDec("1e-12"), 0) \/ RLe(G, 2)
ShareBounds == kind = "pair" =>
    LET s == Shares(G, SplitAt(Value, u)) IN RLe(1, s[1]) /\ RLe(1, s[2])
\* every rate is positive and proportional to the step
RateLaw == LET d1 == IF kind = "pair" THEN PairDepth(1, Value, G) ELSE LeptonDepth(kind, 1, Part, F)
               d2 == IF kind = "pair" THEN PairDepth(2, Value, G) ELSE LeptonDepth(kind, 2, Part, F)
           IN  RLt(0, d1) /\ RClose(d2, RMul(2, d1), RDec("1e-12"), 0)
\* twice the eta: the classical photon is four times the chi, twice the energy
ClassicalLaw == kind = "classic" =>
    RClose(LeptonPhoton(kind, Part, [F EXCEPT !.b = VScale(2, F.b)], u), RMul(2, LeptonPhoton(kind, Part, F, u)), RDec("1e-9"), 0)
Emit == PrintT(<<"CMD", kind, who, P, BField, u>>)
=============================================================================
