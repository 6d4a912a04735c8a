------------------------------- MODULE Spectra ------------------------------
(***************************************************************************)
(* The physics behind the tables: quantum synchrotron emission and pair     *)
(* creation by a photon in a strong field.                                  *)
(***************************************************************************)
EXTENDS Tables
LOCAL INSTANCE TLC

\* quantum synchrotron function of a lepton at eta for a photon with chi
Synchrotron(eta, chi) ==
    IF RLe(eta, RMul(2, chi)) THEN 0
    ELSE LET y == RDiv(RMul(4, chi), RMul(3, RMul(eta, RSub(eta, RMul(2, chi)))))
         IN  IF RLt(700, y) THEN 0
             ELSE RAdd(RMul(RMul(4, RSq(RDiv(chi, eta))), RMul(y, RBesselK(RDiv(2, 3), y))),
                       RMul(RSub(1, RDiv(RMul(2, chi), eta)), RMul(y, RBesselKTail(RDiv(5, 3), y))))
\* Simpson's rule for f over [a, b] in 2 n pieces
SimpsonOver(f(_), a, b, n) ==
    LET step == RDiv(RSub(b, a), 2 * n)
        at(i) == f(RAdd(a, RMul(i, step)))
    IN  RMul(RDiv(step, 3), RSum([i \in 1..(2 * n + 1) |-> RMul(IF i \in {1, 2 * n + 1} THEN 1 ELSE IF i % 2 = 0 THEN 4 ELSE 2, at(i - 1))]))
\* photons per unit of log chi; below a small chi they fall off as chi^(1/3)
PerLog(eta, s) == Synchrotron(eta, RExp(s))
Below(eta, s) == RMul(3, PerLog(eta, s))
\* h(eta): total number of photons; the bulk of them is around chi = eta^2
HPhysical(eta) ==
    LET peak == RLn(RMin(RSq(eta), RHalf(eta)))
        hi == RMin(RLn(RHalf(eta)), RAdd(peak, 7))
        f(s) == PerLog(eta, s)
    IN  RAdd(Below(eta, RSub(peak, 14)), RAdd(SimpsonOver(f, RSub(peak, 14), RSub(hi, 2), 60), SimpsonOver(f, RSub(hi, 2), hi, 250)))
\* energy radiated over energy radiated classically, for the radiated power
GPhysical(eta) ==
    LET peak == RLn(RMin(RSq(eta), RHalf(eta)))
        hi == RMin(RLn(RHalf(eta)), RAdd(peak, 7))
        f(s) == RMul(RExp(s), PerLog(eta, s))
    IN  RDiv(RMul(RAdd(SimpsonOver(f, RSub(hi, 20), RSub(hi, 2), 90), SimpsonOver(f, RSub(hi, 2), hi, 250)), RMul(3, RSqrt(3))), RMul(RMul(2, RDec("3.14159265358979")), RSq(eta)))
\* share of the photons with chi up to xs[j], for the logarithmic nodes xs
RECURSIVE Running(_, _)
Running(s, n) == IF n = 1 THEN <<s[1]>> ELSE LET r == Running(s, n - 1) IN Append(r, RAdd(r[n-1], s[n]))
PhotonShares(eta, xs) ==
    LET f(s) == PerLog(eta, RMul(s, RLn(10)))
        part == TLCEval([j \in 1..Len(xs) |-> IF j = 1 THEN Below(eta, RMul(xs[1], RLn(10)))
                                      ELSE RMul(RLn(10), SimpsonOver(f, xs[j-1], xs[j], 1))])
        run == TLCEval(Running(part, Len(xs)))
    IN  [j \in 1..Len(xs) |-> RDiv(run[j], run[Len(xs)])]

\* pair creation rate function T(chi)
Pairs(chi) == RMul(RDec("0.16"), RDiv(RSq(RBesselK(RDiv(1, 3), RDiv(2, RMul(3, chi)))), chi))
\* distribution of the energy share x of one lepton of the pair
PairShape(chi, x) ==
    IF RLe(x, 0) \/ RLe(1, x) THEN 0
    ELSE LET c == RMul(x, RSub(1, x)) IN RMul(RDiv(RAdd(2, c), c), RBesselK(RDiv(2, 3), RDiv(1, RMul(3, RMul(chi, c)))))
PairShares(chi, xs) ==
    LET f(x) == PairShape(chi, x)
        part == TLCEval([j \in 1..Len(xs) |-> SimpsonOver(f, IF j = 1 THEN 0 ELSE xs[j-1], xs[j], 1)])
        run == TLCEval(Running(part, Len(xs)))
    IN  [j \in 1..Len(xs) |-> RDiv(run[j], run[Len(xs)])]
=============================================================================
