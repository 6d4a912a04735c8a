--------------------------- MODULE NumericsTrace ---------------------------
EXTENDS Numerics, Observed

Tol == RDec("1e-11")
\* the size of the numbers an interpolation adds up, for its rounding
Scale(xs, ys, q) == LET n == Len(xs) IN RAdd(RAbs(Interp(xs, ys, q)), RMax(RAbs(ys[1]), RAbs(ys[n])))
InterpOk(xs, ys, q, r) == RClose(r, Interp(xs, ys, q), 0, RMul(Tol, RAdd(Scale(xs, ys, q), RDec("1e-300"))))

Verdict(e) ==
    CASE e.op = "interp" -> FirstBroken(<<
            <<"interpolated value", \A i \in 1..Len(e.q) : InterpOk(e.xs, e.ys, e.q[i], e.r[i])>> >>)
      [] e.op = "index" -> FirstBroken(<<
            <<"nearest sample", \A i \in 1..Len(e.q) : IsNearest(e.xs, e.q[i], e.r[i])>> >>)
      [] e.op = "closest" -> FirstBroken(<<
            <<"refuses a query beyond the table", RLt(e.xs[Len(e.xs)], e.q) => ~e.ok /\ e.exit # 0>>,
            <<"answers a query inside the table", RLe(e.q, e.xs[Len(e.xs)]) => e.ok>>,
            <<"locates the query", e.ok => Locates(e.xs, e.q, e.low, e.frac)>> >>)
      [] e.op = "simpson" -> FirstBroken(<<
            <<"integral", RClose(e.r, Simpson(e.xs, e.ys), 0,
                 RMul(RDec("1e-10"), RMul(RAbs(RSub(e.xs[Len(e.xs)], e.xs[1])),
                      RSum([i \in 1..Len(e.ys) |-> RAbs(e.ys[i])]))))>> >>)
      [] OTHER -> "unexpected event " \o e.op
=============================================================================
