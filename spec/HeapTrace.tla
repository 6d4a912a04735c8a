------------------------------ MODULE HeapTrace -----------------------------
(***************************************************************************)
(* The record of everything a program took from storage and released must   *)
(* be a behaviour of the heap of Storage: an object is taken at an address  *)
(* not in use, released once, in the form it was taken, and what surrounds  *)
(* it is as it was.  ev: <<1, address, bytes, array>>, <<2, address, 0,     *)
(* array>>, <<3, address, 0, 0>> (surroundings overwritten).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES k, i, live, wrong
vars == <<k, i, live, wrong>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[k].ev
Init == k \in 1..Len(Trace) /\ i = 0 /\ live = {} /\ wrong = ""
Held(a) == <<a, 0>> \in live \/ <<a, 1>> \in live
Take(e) == /\ e[1] = 1 /\ live' = live \cup {<<e[2], e[4]>>}
           /\ wrong' = IF Held(e[2]) THEN "an object is taken where one is" ELSE ""
Release(e) == /\ e[1] = 2 /\ live' = live \ {<<e[2], 0>>, <<e[2], 1>>}
              /\ wrong' = IF <<e[2], e[4]>> \in live THEN ""
                          ELSE IF Held(e[2]) THEN "an array is released as one object or the reverse"
                          ELSE "an object is released that is not held"
Broken(e) == /\ e[1] = 3 /\ UNCHANGED live /\ wrong' = "something is written beside an object"
Next == /\ i < Len(Ev) /\ wrong = ""
        /\ Take(Ev[i+1]) \/ Release(Ev[i+1]) \/ Broken(Ev[i+1])
        /\ i' = i + 1 /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
\* what is said about a record at its end
Told == IF wrong # "" THEN PrintT(<<"BAD", k, wrong>>)
        ELSE i = Len(Ev) => IF Trace[k].status # 0 THEN PrintT(<<"BAD", k, "the program is ended by a signal or fails">>)
                            ELSE PrintT(<<"DONE", k>>)
=============================================================================
