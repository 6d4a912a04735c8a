------------------------------ MODULE RandomGen -----------------------------
(***************************************************************************)
(* A seedable generator: its state is what a seed and the calls since then  *)
(* make it.  Behaviours of seeds and calls of length Depth become histories *)
(* that are run on the code; the value of each call is an uninterpreted     *)
(* function of the state and the call, which the conformance check tests.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Depth
VARIABLE h
Calls == {"uniform 0 1", "normal 3 0.5", "uniforms -2 5 3", "poisson 4.5", "discrete 3 1 0 2", "depth"}
Seeds == {1, 2}
Init == h = <<>>
Next == /\ Len(h) < Depth
        /\ \/ \E s \in Seeds : (IF h = <<>> THEN TRUE ELSE h[Len(h)][1] = "call") /\ h' = Append(h, <<"seed", s>>)
           \/ \E c \in Calls : h # <<>> /\ h' = Append(h, <<"call", c>>)
\* state of the generator after a history: the last seed and the calls since it
RECURSIVE StateAfter(_)
StateAfter(x) == IF x = <<>> THEN <<>>
                 ELSE IF x[Len(x)][1] = "seed" THEN <<x[Len(x)]>>
                 ELSE Append(StateAfter(SubSeq(x, 1, Len(x) - 1)), x[Len(x)])
\* reseeding forgets everything before
Forgets == \A i \in 1..Len(h) : h[i][1] = "seed" => StateAfter(h) = StateAfter(SubSeq(h, i, Len(h)))
Emit == (Len(h) = Depth) => PrintT(<<"CMD", h>>)
=============================================================================
