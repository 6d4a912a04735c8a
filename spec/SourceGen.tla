------------------------------ MODULE SourceGen -----------------------------
(***************************************************************************)
(* The protocol of a source with several askers: each ask gets the next    *)
(* index or ends the program; and the configurations worth running.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Size, Askers
VARIABLES next, got, dead

Init == next = 0 /\ got = [a \in 1..Askers |-> {}] /\ dead = FALSE
Ask(a) == /\ ~dead
          /\ IF next < Size THEN got' = [got EXCEPT ![a] = @ \cup {next}] /\ next' = next + 1 /\ UNCHANGED dead
             ELSE dead' = TRUE /\ UNCHANGED <<next, got>>
Next == \E a \in 1..Askers : Ask(a)
Spec == Init /\ [][Next]_<<next, got, dead>>

Once == \A a, b \in 1..Askers : a # b => got[a] \cap got[b] = {}
All == UNION {got[a] : a \in 1..Askers} = 0..(next - 1)
OnlyThenDead == dead => next = Size

Types == {"electron", "Electron", "positron", "Positron", "photon", "Photon"}
Distros == {"mono", "gaussian", "linear", "Mono", "Gaussian", "Linear"}
Dirs == {<<0, 0, 1>>, <<0, 0, -1>>, <<3, 0, 0>>, <<1, -2, 2>>, <<-1, 1, -5>>, <<0, -1, 0>>}
\* every type with every distribution, with some spread switched on; the
\* directions and spreads are spread over these pairs
ASSUME \A t \in Types, d \in Distros, v \in Dirs, s \in SUBSET {"pos", "tau", "dir"} :
          PrintT(<<"CMD", t, d, v, "pos" \in s, "tau" \in s, "dir" \in s>>)
=============================================================================
