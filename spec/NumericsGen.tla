----------------------------- MODULE NumericsGen -----------------------------
(* All small lookups: every table over a small grid with every query on the  *)
(* half-grid around it.  Written as commands for the harness; the facts      *)
(* ASSUMEd are the theorems of Numerics on the same space.                   *)
EXTENDS Numerics, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Grid, Values
Inc(n) == {s \in [1..n -> Grid] : \A i \in 1..(n-1) : s[i] < s[i+1]}
Tables == UNION {{<<x, y>> : x \in Inc(n), y \in [1..n -> Values]} : n \in 2..3}
Queries(x) == {k \in -3..(2 * (CHOOSE m \in Grid : \A g \in Grid : g <= m) + 3) : TRUE}  \* in halves
VARIABLE t
Init == t \in Tables
Next == UNCHANGED t
\* theorems of the lookup on the whole space
Q(k) == RDiv(k, 2)
Through == \A i \in 1..Len(t[1]) : REq(Interp(t[1], t[2], t[1][i]), t[2][i])
Between == \A k \in Queries(t[1]) : \A i \in 1..(Len(t[1]) - 1) :
    (RLe(t[1][i], Q(k)) /\ RLe(Q(k), t[1][i+1])) =>
        /\ RLe(RMin(t[2][i], t[2][i+1]), RAdd(Interp(t[1], t[2], Q(k)), RDec("1e-12")))
        /\ RLe(Interp(t[1], t[2], Q(k)), RAdd(RMax(t[2][i], t[2][i+1]), RDec("1e-12")))
Emit == PrintT(<<"CMD", t>>)
=============================================================================
