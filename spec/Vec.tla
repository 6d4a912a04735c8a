-------------------------------- MODULE Vec ---------------------------------
(* Three-vectors <<x, y, z>> and three-by-three matrices (rows of vectors). *)
EXTENDS Real64
LOCAL INSTANCE Integers

I3 == 1..3
VZero == <<0, 0, 0>>
VAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2]), RAdd(a[3], b[3])>>
VSub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2]), RSub(a[3], b[3])>>
VMulEl(a, b) == <<RMul(a[1], b[1]), RMul(a[2], b[2]), RMul(a[3], b[3])>>
VDivEl(a, b) == <<RDiv(a[1], b[1]), RDiv(a[2], b[2]), RDiv(a[3], b[3])>>
VScale(s, a) == <<RMul(s, a[1]), RMul(s, a[2]), RMul(s, a[3])>>
VDivS(a, s) == <<RDiv(a[1], s), RDiv(a[2], s), RDiv(a[3], s)>>
VNeg(a) == <<RNeg(a[1]), RNeg(a[2]), RNeg(a[3])>>
VDot(a, b) == RAdd(RAdd(RMul(a[1], b[1]), RMul(a[2], b[2])), RMul(a[3], b[3]))
VCross(a, b) == << RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                   RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                   RSub(RMul(a[1], b[2]), RMul(a[2], b[1])) >>
VMag2(a) == VDot(a, a)
VMag(a) == RSqrt(VMag2(a))
VNorm(a) == LET m == VMag(a) IN IF REq(m, 0) THEN a ELSE VDivS(a, m)
VFinite(a) == \A i \in I3 : RFinite(a[i])
VMaxAbs(a) == RMax(RAbs(a[1]), RMax(RAbs(a[2]), RAbs(a[3])))

\* every component equal within abs + rel * (largest component of either)
VClose(a, b, rel, abs) ==
    LET s == RAdd(abs, RMul(rel, RMax(VMaxAbs(a), VMaxAbs(b))))
    IN  \A i \in I3 : RClose(a[i], b[i], 0, s)

MV(m, v) == << VDot(m[1], v), VDot(m[2], v), VDot(m[3], v) >>
MCol(m, j) == <<m[1][j], m[2][j], m[3][j]>>
MMul(a, b) == [i \in I3 |-> [j \in I3 |-> VDot(a[i], MCol(b, j))]]
MAdd(a, b) == [i \in I3 |-> VAdd(a[i], b[i])]
MScale(s, a) == [i \in I3 |-> VScale(s, a[i])]
MIdent == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
MDet(m) == VDot(m[1], VCross(m[2], m[3]))
MTrans(m) == [i \in I3 |-> MCol(m, i)]
MClose(a, b, abs) == \A i, j \in I3 : RClose(a[i][j], b[i][j], 0, abs)

\* A proper rotation: orthogonal with determinant one
IsRotation(m, tol) == /\ MClose(MMul(m, MTrans(m)), MIdent, tol)
                      /\ RClose(MDet(m), 1, 0, tol)

\* The shortest rotation taking direction a to direction b (not antiparallel):
\* R v = v cos + (k x v) + k (k.v) / (1 + cos),  k = a x b
Rotate(a, b, v) ==
    LET na == VNorm(a)  nb == VNorm(b)
        c == VDot(na, nb)  k == VCross(na, nb)
    IN  VAdd(VAdd(VScale(c, v), VCross(k, v)),
             VScale(RDiv(VDot(k, v), RAdd(1, c)), k))
=============================================================================
