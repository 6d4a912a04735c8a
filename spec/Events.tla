------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* A whole event as a function: what becomes of a primary by the end of the *)
(* simulated time, when every uniform draw has the value c.u.  In each step *)
(* every living particle that was there at its start moves and reacts;      *)
(* those born in the step wait for the next.                                *)
(***************************************************************************)
EXTENDS Reactions
LOCAL INSTANCE Sequences
LOCAL INSTANCE Integers
LOCAL INSTANCE TLC

RECURSIVE StepFrom(_, _, _, _)
StepFrom(c, parts, j, n) ==
    IF j > n THEN parts
    ELSE IF ~parts[j].alive THEN StepFrom(c, parts, j + 1, n)
    ELSE LET r == TLCEval(Reaction(c, Step(c, parts[j])))
         IN  StepFrom(c, TLCEval([parts EXCEPT ![j] = r.self] \o r.born), j + 1, n)
RECURSIVE EventFrom(_, _, _)
EventFrom(c, parts, t) == IF RLt(t, c.end) THEN EventFrom(c, StepFrom(c, parts, 1, Len(parts)), RAdd(t, c.dt)) ELSE parts
Survivors(c, p) == SelectSeq(EventFrom(c, <<p>>, RDec("0")), LAMBDA x : x.alive)
RECURSIVE AllSurvivors(_, _)
AllSurvivors(c, ps) == IF ps = <<>> THEN <<>> ELSE Survivors(c, Head(ps)) \o AllSurvivors(c, Tail(ps))
=============================================================================
