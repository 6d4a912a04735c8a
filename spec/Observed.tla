------------------------------ MODULE Observed ------------------------------
(***************************************************************************)
(* Conformance of single observations: every line of the trace file is one *)
(* observed call of the real code and is judged on its own.  The module    *)
(* that extends this one instantiates Judge with its Verdict, which names  *)
(* the clause an observation breaks, or "" if it breaks none.  Each state  *)
(* is one observation; the check compares the state count with the number  *)
(* of observations, so that none is skipped.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Judge(_)
VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 64

Init == l \in 1..(IF Len(Trace) < Chains THEN Len(Trace) ELSE Chains)
Next == l + Chains <= Len(Trace) /\ l' = l + Chains
Spec == Init /\ [][Next]_l

\* always TRUE, but reports what an observation breaks
Conforms == LET v == Judge(Trace[l]) IN v = "" \/ PrintT(<<"BAD", l, v>>)

\* the first clause of a sequence of <<name, holds>> that does not hold
RECURSIVE FirstBroken(_)
FirstBroken(cs) == IF cs = <<>> THEN "" ELSE IF Head(cs)[2] THEN FirstBroken(Tail(cs)) ELSE Head(cs)[1]
=============================================================================
