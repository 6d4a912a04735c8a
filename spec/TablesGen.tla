------------------------------ MODULE TablesGen -----------------------------
(***************************************************************************)
(* Every row of the shipped tables is one state; laws of each row, and      *)
(* commands that look the row up in the code.                               *)
(***************************************************************************)
EXTENDS Spectra, Motion, TLC
VARIABLES tab, row

Count(k) == CASE k = "eta" -> NEta [] k = "h" -> Len(Tab.hx) [] k = "t" -> Len(Tab.tx) [] k = "split" -> Len(Tab.splitx)
Chains == 8
Init == tab \in {"eta", "h", "t", "split"} /\ row \in 1..Chains
Next == row + Chains <= Count(tab) /\ row' = row + Chains /\ UNCHANGED tab

Rising(s) == \A i \in 1..(Len(s) - 1) : RLt(s[i], s[i+1])
NotFalling(s) == \A i \in 1..(Len(s) - 1) : RLe(s[i], s[i+1])
Finite(s) == \A i \in 1..Len(s) : RFinite(s[i])
Cumulative(s) == Finite(s) /\ NotFalling(s) /\ RLe(0, s[1]) /\ REq(s[Len(s)], 1)

\* sizes agree with each other, axes rise
Shape == row = 1 =>
    CASE tab = "eta" -> Len(Tab.ksi) = NEta /\ Len(Tab.chimin) = NEta /\ Finite(Tab.chimin) /\ NEta >= 4 /\ NChi >= 3 /\ Rising(EtaAxis) /\ Rising(Tab.chimin)
      [] tab = "h" -> Len(Tab.hx) = Len(Tab.hy) /\ Finite(Tab.hy) /\ Rising(Tab.hx)
      [] tab = "t" -> Len(Tab.tx) = Len(Tab.ty) /\ Finite(Tab.ty) /\ Rising(Tab.tx)
      [] tab = "split" -> /\ Len(Tab.split) = Len(Tab.splitx) /\ Len(Tab.eps) = Len(Tab.splitx) /\ Rising(Tab.splitx) /\ Rising(Tab.eps)
                          /\ RLe(0, Tab.eps[1]) /\ RClose(Tab.eps[Len(Tab.eps)], 1, RDec("1e-12"), 0)
\* a photon has at most chi = eta / 2, which is where the rows end
RowEnds == tab = "eta" => /\ RLt(0, Tab.chimin[row]) /\ Rising(ChiAxis[row])
                          /\ RClose(RPow(10, ChiAxis[row][NChi]), RHalf(RPow(10, EtaAxis[row])), RDec("1e-9"), 0)
Distribution == /\ tab = "eta" => Len(Tab.ksi[row]) = NChi /\ Cumulative(Tab.ksi[row])
                /\ tab = "split" => Len(Tab.split[row]) = Len(Tab.eps) /\ Cumulative(Tab.split[row])
\* the rows are the distributions of synchrotron emission and pair creation
NearShares(a, b, tol) == \A j \in 1..Len(a) : RClose(a[j], b[j], 0, tol)
PhotonPhysics == tab = "eta" => NearShares(Tab.ksi[row], TLCEval(PhotonShares(RPow(10, EtaAxis[row]), ChiAxis[row])), RDec("0.003"))
PairPhysics == tab = "split" => NearShares(Tab.split[row], TLCEval(PairShares(RPow(10, Tab.splitx[row]), Tab.eps)), RDec("0.008"))
RatePhysics == tab = "h" => RClose(RPow(10, Tab.hy[row]), HPhysical(RPow(10, Tab.hx[row])), RDec("1e-4"), 0)
\* the tabulated rate has a floor where hardly any pairs are made
Floor == RPow(10, -49)
PairRatePhysics == tab = "t" =>
    LET t == Pairs(RPow(10, Tab.tx[row])) IN IF RLt(t, Floor) THEN RLe(RPow(10, Tab.ty[row]), Floor) ELSE RClose(RPow(10, Tab.ty[row]), t, RDec("1e-9"), 0)
\* the semiclassical drag takes what the photons carry away on average
DragPhysics == tab = "h" => LET eta == RPow(10, Tab.hx[row]) IN RClose(QuantumFactor(eta), GPhysical(eta), RDec("0.02"), 0)

\* no draw gives a photon more than the lepton has, or a lepton more than the photon
Draws == {RDec("0"), RDec("1e-9"), RDec("0.1"), RDec("0.5"), RDec("0.9"), RDec("0.999"), RDec("0.9999999999999999")}
SampleBounds ==
    /\ (tab = "eta" /\ row < NEta) => \A u \in Draws, f \in {RDec("0"), RDec("0.5"), RDec("1")} :
          LET eta == RPow(10, Mix(f, EtaAxis[row], EtaAxis[row+1]))  chi == ChiAt(eta, u)
          IN  RLt(0, chi) /\ RLe(chi, RMul(RHalf(eta), RDec("1.000001")))
    /\ (tab = "split" /\ row < Count("split")) => \A u \in Draws :
          LET x == SplitAt(RPow(10, Mix(RHalf(1), Tab.splitx[row], Tab.splitx[row+1])), u)
          IN  RLe(RDec("-0.01"), x) /\ RLe(x, RDec("1.000001"))
AxisOf == CASE tab = "eta" -> EtaAxis [] tab = "h" -> Tab.hx [] tab = "t" -> Tab.tx [] tab = "split" -> Tab.splitx
\* the bracketing search takes queries up to the last but one sample
Last == IF tab \in {"eta", "split"} THEN Count(tab) - 2 ELSE Count(tab)
Emit == row <= Last => PrintT(<<"CMD", tab, AxisOf[row], IF row < Len(AxisOf) THEN AxisOf[row + 1] ELSE AxisOf[row]>>)
=============================================================================
