------------------------------ MODULE Algebra -------------------------------
(* Three-vectors, matrices and the rotation between two directions.         *)
EXTENDS Vec
LOCAL INSTANCE Integers

Skew(k) == << <<0, RNeg(k[3]), k[2]>>, <<k[3], 0, RNeg(k[1])>>, <<RNeg(k[2]), k[1], 0>> >>

\* how far from opposite two directions are: |a/|a| + b/|b||^2 / 2 = 1 + cos
Opposed(a, b) == RHalf(VMag2(VAdd(VNorm(a), VNorm(b))))

\* The shortest rotation of direction a onto direction b; undefined (any half
\* turn about a perpendicular axis serves) when they are opposite
RotationTo(a, b) ==
    LET na == VNorm(a)  nb == VNorm(b)  k == Skew(VCross(na, nb))
    IN  MAdd(MAdd(MIdent, k), MScale(RDiv(1, RAdd(1, VDot(na, nb))), MMul(k, k)))

\* Cofactor inverse of an invertible matrix
Inverse(m) == LET c == << VCross(m[2], m[3]), VCross(m[3], m[1]), VCross(m[1], m[2]) >>
              IN  MScale(RDiv(1, MDet(m)), MTrans(c))

\* What a rotation of a onto b must satisfy, whichever one it is
RotatesOnto(r, a, b, tol) ==
    /\ IsRotation(r, tol)
    /\ VClose(MV(r, VNorm(a)), VNorm(b), 0, tol)
\* and, unless they are (anti)parallel, it turns in the plane of the two
FixesNormal(r, a, b, tol) ==
    LET k == VCross(VNorm(a), VNorm(b))
    IN  VClose(MV(r, k), k, 0, tol)
=============================================================================
