------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* The physics tables, as the check read them from the table files, and    *)
(* what is looked up in them.  All axes are decimal logarithms.            *)
(***************************************************************************)
EXTENDS Numerics
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils

Tab == JsonDeserialize(IOEnv.TABLES)

\* photon energy table: rows over eta, columns over chi
NEta == Len(Tab.chimin)
NChi == Len(Tab.ksi[1])
EtaAxis == [i \in 1..NEta |-> RAdd(Tab.etalo, RMul(i - 1, RDiv(RSub(Tab.etahi, Tab.etalo), NEta - 1)))]
\* columns run from the smallest chi of the row up to eta / 2
ChiAxis == [i \in 1..NEta |->
    LET lo == RLog10(Tab.chimin[i])  hi == RSub(EtaAxis[i], RLog10(2))
    IN  [j \in 1..NChi |-> RAdd(lo, RMul(j - 1, RDiv(RSub(hi, lo), NChi - 1)))]]

\* the segment of a table that holds q, and how far into it q is
Segment(xs, q) == LET k == AtOrBelow(xs, q) IN IF k < 1 THEN 1 ELSE IF k >= Len(xs) THEN Len(xs) - 1 ELSE k
Into(xs, q, k) == RDiv(RSub(q, xs[k]), RSub(xs[k+1], xs[k]))
Mix(f, a, b) == RAdd(RMul(RSub(1, f), a), RMul(f, b))

\* chi of the photon a lepton at eta radiates when the uniform draw is u
ChiAt(eta, u) ==
    LET q == RLog10(eta)  k == Segment(EtaAxis, q)
    IN  RPow(10, Mix(Into(EtaAxis, q, k), Interp(Tab.ksi[k], ChiAxis[k], u), Interp(Tab.ksi[k+1], ChiAxis[k+1], u)))
HAt(eta) == RPow(10, Interp(Tab.hx, Tab.hy, RLog10(eta)))
TAt(chi) == RPow(10, Interp(Tab.tx, Tab.ty, RLog10(chi)))
\* share of the photon energy one lepton of a pair gets for the draw u
SplitAt(chi, u) ==
    LET q == RLog10(chi)  k == Segment(Tab.splitx, q)
    IN  Mix(Into(Tab.splitx, q, k), Interp(Tab.split[k], Tab.eps, u), Interp(Tab.split[k+1], Tab.eps, u))
=============================================================================
