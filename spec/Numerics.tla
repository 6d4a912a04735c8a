------------------------------ MODULE Numerics ------------------------------
(* Table lookups: what every rate, energy and histogram bin is read with.   *)
EXTENDS Real64, Integers, Sequences

\* How many of the increasing sequence xs are <= q (binary search)
RECURSIVE CountLe(_, _, _, _)
CountLe(xs, q, lo, hi) ==       \* xs[1..lo] <= q < xs[hi+1..]
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN  IF RLe(xs[mid], q) THEN CountLe(xs, q, mid, hi) ELSE CountLe(xs, q, lo, mid - 1)
AtOrBelow(xs, q) == CountLe(xs, q, 0, Len(xs))

Line(x1, y1, x2, y2, q) == RAdd(y1, RMul(RSub(q, x1), RDiv(RSub(y2, y1), RSub(x2, x1))))

\* Piecewise linear through the samples, continued by the first and last
\* segments outside them
Interp(xs, ys, q) ==
    LET n == Len(xs)  k == AtOrBelow(xs, q)
    IN  IF RSame(q, xs[n]) THEN ys[n]
        ELSE IF k = 0 THEN Line(xs[1], ys[1], xs[2], ys[2], q)
        ELSE IF k = n THEN Line(xs[n-1], ys[n-1], xs[n], ys[n], q)
        ELSE Line(xs[k], ys[k], xs[k+1], ys[k+1], q)

\* i (0-based) is a sample nearest to q, to rounding
IsNearest(xs, q, i) ==
    LET n == Len(xs)
        dist(j) == RAbs(RSub(xs[j], q))
        k == AtOrBelow(xs, q)
        cand == {j \in {k, k + 1} : j >= 1 /\ j <= n}
        scale == RAdd(RAbs(q), RAbs(RSub(xs[n], xs[1])))
    IN  /\ i + 1 \in 1..n
        /\ \A j \in cand : RLe(dist(i + 1), RAdd(dist(j), RMul(RDec("1e-13"), scale)))

\* (low, frac) locates q in the table: segment low (0-based), q at frac of it
Locates(xs, q, low, frac) ==
    LET n == Len(xs)
    IN  /\ low \in 0..(n - 2)
        /\ RClose(RAdd(xs[low+1], RMul(frac, RSub(xs[low+2], xs[low+1]))), q,
                  RDec("1e-12"), RMul(RDec("1e-12"), RAbs(RSub(xs[low+2], xs[low+1]))))
        /\ IF RLe(q, xs[1]) THEN low = 0
           ELSE RLe(xs[low+1], q) /\ RLe(q, xs[low+2])

RECURSIVE WeightedSum(_, _)
WeightedSum(ys, i) ==   \* 1 4 2 4 ... 4 1 up to sample i
    IF i = 0 THEN 0
    ELSE RAdd(WeightedSum(ys, i - 1),
              RMul(IF i = 1 \/ i = Len(ys) THEN 1 ELSE IF i % 2 = 0 THEN 4 ELSE 2, ys[i]))
Simpson(xs, ys) ==
    RDiv(RMul(WeightedSum(ys, Len(ys)), RDiv(RSub(xs[Len(xs)], xs[1]), Len(xs) - 1)), 3)
=============================================================================
