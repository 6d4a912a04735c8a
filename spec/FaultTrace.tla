----------------------------- MODULE FaultTrace -----------------------------
(***************************************************************************)
(* A recorded run under faults is a behaviour of Durable at the level of    *)
(* the operations on its files: ev is <<class, operation, outcome>> each,   *)
(* outcome "done", "none" (to be opened but not there), "part" or "again"   *)
(* (to be repeated), "fail" or "cut" (a table seems to end).  At its end    *)
(* status is the run's status (1000 + the signal, 3000 if it did not end),  *)
(* same says whether its output is what it is when nothing goes wrong, said *)
(* whether it said anything about it.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES k, i, failed, bumped
vars == <<k, i, failed, bumped>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[k].ev
Init == k \in 1..Len(Trace) /\ i = 0 /\ failed = FALSE /\ bumped = FALSE
\* an output is looked for before it is made
Done(e) == (e[3] = "done" \/ (e[2] = "open" /\ e[3] = "none")) /\ UNCHANGED <<failed, bumped>>
Repeat(e) == e[2] \in {"read", "write"} /\ e[3] \in {"part", "again"} /\ bumped' = TRUE /\ UNCHANGED failed
Fail(e) == e[3] = "fail" /\ failed' = TRUE /\ UNCHANGED bumped
Cut(e) == e[1] = "table" /\ e[2] = "read" /\ e[3] = "cut" /\ failed' = TRUE /\ UNCHANGED bumped
Next == /\ i < Len(Ev)
        /\ Done(Ev[i+1]) \/ Repeat(Ev[i+1]) \/ Fail(Ev[i+1]) \/ Cut(Ev[i+1])
        /\ i' = i + 1 /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
Wrong == LET t == Trace[k] IN
         CASE t.status = 3000 -> "the run does not end"
           [] t.status = 0 /\ ~t.same -> "a run ends normally though its output is not what it should be"
           [] t.status # 0 /\ ~failed /\ ~bumped -> "a run whose operations all went well fails"
           [] t.status # 0 /\ ~t.said -> "a run fails and does not say so"
           [] OTHER -> ""
Told == i = Len(Ev) => IF Wrong # "" THEN PrintT(<<"BAD", k, Wrong>>) ELSE PrintT(<<"DONE", k>>)
=============================================================================
