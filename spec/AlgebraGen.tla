----------------------------- MODULE AlgebraGen -----------------------------
(* Every pair of directions on a small grid, opposite and parallel ones     *)
(* included.  The specification's own laws are checked on each pair, and    *)
(* the pair is printed for the conformance harness.                         *)
EXTENDS Algebra, Integers, Sequences, TLC
VARIABLES a, b

Grid == {<<x, y, z>> : x \in -1..1, y \in -1..1, z \in -1..1} \cup {<<2, -1, 0>>, <<0, 3, -1>>, <<-1, 2, 2>>}
Init == a \in Grid \ {<<0, 0, 0>>} /\ b \in Grid \ {<<0, 0, 0>>}
Next == FALSE /\ UNCHANGED <<a, b>>
Tol == RDec("1e-12")

Lawful == RLt(RDec("1e-9"), Opposed(a, b)) =>
            LET r == RotationTo(a, b)
            IN  /\ RotatesOnto(r, a, b, Tol)
                /\ FixesNormal(r, a, b, Tol)
                /\ MClose(MMul(r, Inverse(r)), MIdent, Tol)
                /\ MClose(Inverse(r), MTrans(r), Tol)
                /\ \A v \in {<<1, 2, 3>>, <<0, 1, 0>>} : VClose(MV(r, v), Rotate(a, b, v), 0, Tol)
Orthogonal == LET k == VCross(a, b) IN REq(VDot(k, a), 0) /\ REq(VDot(k, b), 0)
Emit == PrintT(<<"CMD", a, b>>)
=============================================================================
