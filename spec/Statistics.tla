----------------------------- MODULE Statistics -----------------------------
(***************************************************************************)
(* Samples of random variables.  Every statistic below has a known mean    *)
(* and variance under the specified distribution; the sample's must lie    *)
(* within Z standard deviations of it.                                     *)
(***************************************************************************)
EXTENDS Real64
LOCAL INSTANCE Sequences
LOCAL INSTANCE Integers
LOCAL INSTANCE TLC

Z == 6
Map(f(_), s) == TLCEval([i \in 1..Len(s) |-> f(s[i])])
Mean(s) == RDiv(RSum(s), Len(s))
\* the mean of the sample s, whose members have this mean and variance
MeanIs(s, mean, variance) ==
    RClose(Mean(s), mean, RDec("1e-12"), RMul(Z, RSqrt(RDiv(variance, Len(s)))))
One(b) == IF b THEN 1 ELSE 0
Fraction(s, p(_), f) == MeanIs(Map(LAMBDA v : One(p(v)), s), f, RMul(f, RSub(1, f)))
Product(s, t) == TLCEval([i \in 1..Len(s) |-> RMul(s[i], t[i])])
Lagged(s) == TLCEval([i \in 1..(Len(s) - 1) |-> RMul(s[i], s[i+1])])

\* standardised sample of a standard normal distribution: first four moments,
\* the share within one and two deviations, and independence of successive draws
Enough(s) == Len(s) >= 100         \* smaller samples are only bounded
StandardNormal(s) ==
    /\ \A i \in 1..Len(s) : RLt(RAbs(s[i]), 7)
    /\ Enough(s) =>
        /\ MeanIs(s, 0, 1)
        /\ MeanIs(Map(LAMBDA v : RSq(v), s), 1, 2)
        /\ MeanIs(Map(LAMBDA v : RMul(v, RSq(v)), s), 0, 15)
        /\ MeanIs(Map(LAMBDA v : RSq(RSq(v)), s), 3, 96)
        /\ Fraction(s, LAMBDA v : RLt(RAbs(v), 1), RDec("0.6826894921"))
        /\ Fraction(s, LAMBDA v : RLt(RAbs(v), 2), RDec("0.9544997361"))
        /\ MeanIs(Lagged(s), 0, 1)
\* standardised sample of the uniform distribution on [0, 1]
Uniform01(s) ==
    /\ \A i \in 1..Len(s) : RLe(RDec("-1e-12"), s[i]) /\ RLe(s[i], RDec("1.000000000001"))
    /\ Enough(s) =>
        /\ MeanIs(s, RDec("0.5"), RDiv(1, 12))
        /\ MeanIs(Map(LAMBDA v : RSq(v), s), RDiv(1, 3), RDiv(4, 45))
        /\ \A k \in 1..7 : Fraction(s, LAMBDA v : RLt(v, RDiv(k, 8)), RDiv(k, 8))
        /\ LET c == Map(LAMBDA v : RSub(v, RDec("0.5")), s) IN MeanIs(Lagged(c), 0, RDiv(1, 144))
Uncorrelated(s, t) == MeanIs(Product(s, t), 0, 1)

\* standardised sample of the exponential distribution with mean one
Exponential(s) ==
    /\ \A i \in 1..Len(s) : RLe(0, s[i]) /\ RFinite(s[i])
    /\ Enough(s) =>
        /\ MeanIs(s, 1, 1)
        /\ MeanIs(Map(LAMBDA v : RSq(v), s), 2, 20)
        /\ \A k \in 1..5 : Fraction(s, LAMBDA v : RLt(v, RDiv(k, 2)), RSub(1, RExp(RNeg(RDiv(k, 2)))))
        /\ MeanIs(Lagged(Map(LAMBDA v : RSub(v, 1), s)), 0, 1)
\* sample (of integers) of the Poisson distribution with mean m
RECURSIVE PoissonAt(_, _)
PoissonAt(m, k) == IF k = 0 THEN RExp(RNeg(m)) ELSE RMul(PoissonAt(m, k - 1), RDiv(m, k))
Poisson(s, m) ==
    /\ \A i \in 1..Len(s) : s[i] >= 0
    /\ Enough(s) =>
        /\ MeanIs(s, m, m)
        /\ MeanIs(Map(LAMBDA v : RSq(RSub(v, m)), s), m, RAdd(m, RMul(2, RSq(m))))
        /\ \A k \in 0..12 : Fraction(s, LAMBDA v : v = k, PoissonAt(m, k))
\* sample of indices from 0, with these weights
Discrete(s, w) ==
    /\ \A i \in 1..Len(s) : s[i] \in 0..(Len(w) - 1) /\ RLt(0, w[s[i] + 1])
    /\ Enough(s) => \A k \in 1..Len(w) : Fraction(s, LAMBDA v : v = k - 1, RDiv(w[k], RSum(w)))
=============================================================================
