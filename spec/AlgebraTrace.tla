---------------------------- MODULE AlgebraTrace ----------------------------
EXTENDS Algebra, Observed

Rel == RDec("1e-13")
S(x, y) == RSame(x, y) \/ RClose(x, y, Rel, 0)
SV(a, b) == \A i \in I3 : S(a[i], b[i])
Same(a, b) == \A i \in I3 : RSame(a[i], b[i])
SM(a, b) == \A i \in I3 : SV(a[i], b[i])
SameM(a, b) == \A i \in I3 : Same(a[i], b[i])
MMax(m) == RMax(VMaxAbs(m[1]), RMax(VMaxAbs(m[2]), VMaxAbs(m[3])))

\* sums of products: rounding relative to the largest term
Prod(a, b) == RMul(RMul(4, Rel), RMul(VMaxAbs(a), VMaxAbs(b)))
Fill(s) == <<s, s, s>>

VecVerdict(e) ==
  LET a == e.a  b == e.b  s == e.s  w == Prod(a, b) IN FirstBroken(<<
    <<"sum", SV(e.add, VAdd(a, b))>>, <<"difference", SV(e.sub, VSub(a, b))>>,
    <<"elementwise product", SV(e.mul, VMulEl(a, b))>>, <<"elementwise quotient", SV(e.div, VDivEl(a, b))>>,
    <<"scalar + vector", SV(e.sadd, VAdd(Fill(s), a))>>, <<"vector + scalar", SV(e.adds, VAdd(Fill(s), a))>>,
    <<"scalar - vector", SV(e.ssub, VSub(Fill(s), a))>>, <<"vector - scalar", SV(e.subs, VSub(a, Fill(s)))>>,
    <<"scalar * vector", SV(e.smul, VScale(s, a))>>, <<"vector * scalar", SV(e.muls, VScale(s, a))>>,
    <<"scalar / vector", SV(e.sdiv, VDivEl(Fill(s), a))>>, <<"vector / scalar", SV(e.divs, VDivS(a, s))>>,
    <<"dot product", RClose(e.dot, VDot(a, b), 0, w)>>,
    <<"cross product", VClose(e.cross, VCross(a, b), 0, w)>>,
    <<"magnitude", S(e.mag, VMag(a))>>, <<"squared magnitude", S(e.mag2, VMag2(a))>>,
    <<"norm", SV(e.norm, VNorm(a))>>, <<"direction", SV(e.dir, VNorm(VSub(b, a)))>>,
    <<"operands unchanged", Same(e.a1, a) /\ Same(e.b1, b) /\ Same(e.a2, a) /\ Same(e.a3, a)>>,
    <<"default vector is zero", Same(e.zero, VZero)>>,
    <<"assignment copies", Same(e.asg, a)>>,
    <<"components are independent", Same(e.mix, <<b[1], a[2], b[3]>>) /\ Same(e.cpy, <<a[1], s, a[3]>>)>> >>)

MatVerdict(e) ==
  LET m == e.m  n == e.k  inv == Inverse(m)
      w == RMul(RMul(8, Rel), RMul(MMax(m), MMax(n)))
      d == MDet(m)  dw == RMul(RMul(16, Rel), RPow(MMax(m), 3)) IN FirstBroken(<<
    <<"matrix sum", SM(e.add, MAdd(m, n))>>,
    <<"matrix product", MClose(e.mul, MMul(m, n), w)>>,
    <<"scaled matrix", SM(e.scale, MScale(e.s, m))>>,
    <<"matrix times vector", VClose(e.mv, MV(m, e.v), 0, RMul(RMul(8, Rel), RMul(MMax(m), VMaxAbs(e.v))))>>,
    <<"determinant", RClose(e.det, d, 0, dw)>>,
    <<"inverse", RLt(RMul(RDec("1e3"), dw), RAbs(d)) =>
        MClose(MMul(e.inv, m), MIdent, RMul(RDec("1e-9"), RMax(1, RMul(MMax(inv), MMax(m)))))>>,
    <<"operands unchanged", SameM(e.m1, m) /\ SameM(e.m2, m) /\ SameM(e.n1, n)>>,
    <<"assignment copies", SameM(e.asg, n)>>,
    <<"elements are independent", SameM(e.cpy, << m[1], <<m[2][1], m[2][2], e.s>>, m[3] >>)>>,
    <<"identity", SameM(e.id, MIdent)>>,
    <<"zero matrix", SameM(e.zero, MScale(0, MIdent)) /\ SameM(e.fresh, MScale(0, MIdent))>> >>)

\* rounding grows as the directions become opposite
RotTol(a, b) == RMin(RDec("1e-4"), RAdd(RDec("1e-12"), RDiv(RDec("4e-15"), RAdd(Opposed(a, b), RDec("1e-300")))))
RotVerdict(e) ==
  LET a == e.a  b == e.b  o == Opposed(a, b)
      opp == RLt(o, RDec("1e-20"))
      tol == IF opp THEN RDec("1e-9") ELSE RotTol(a, b) IN FirstBroken(<<
    <<"proper rotation of the first direction onto the second", RotatesOnto(e.r, a, b, tol)>>,
    <<"common normal fixed", opp \/ FixesNormal(e.r, a, b, tol)>>,
    <<"rotation applied to a vector", VClose(e.rv, MV(e.r, e.v), RDec("1e-12"), 0)>>,
    <<"inverse of a rotation", MClose(e.inv, MTrans(e.r), RMul(8, tol))>>,
    <<"operands unchanged", Same(e.a1, a) /\ Same(e.b1, b)>> >>)

Verdict(e) == CASE e.op = "vec" -> VecVerdict(e) [] e.op = "mat" -> MatVerdict(e)
                [] e.op = "rot" -> RotVerdict(e) [] OTHER -> "unexpected event " \o e.op
=============================================================================
