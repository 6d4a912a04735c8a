------------------------------- MODULE Storage ------------------------------
(***************************************************************************)
(* What a run takes from storage and gives back.  A program takes the       *)
(* objects it is set up with; for each event it takes a list and a primary, *)
(* then further particles as they are born, and releases all of them when   *)
(* the event is done; at the end it releases some of the set-up.  A manager *)
(* makes run after run, each with objects of its own.  Objects are          *)
(* addresses; an address may be taken again after its release.  The         *)
(* constants switch on what would be wrong.                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Addresses, Runs, Events, Born, SetUp,
          ForgetBorn,     \* the particles born in an event are not released
          ForgetRun,      \* the objects of a run are not released before the next
          Twice           \* the primary is released by the list and by the loop
VARIABLES pc, run, event, born, live, mine, base, faults
vars == <<pc, run, event, born, live, mine, base, faults>>
\* live: taken and not released; mine: held by the event; base: held by the run

Init == pc = "set up" /\ run = 1 /\ event = 0 /\ born = 0 /\ live = {} /\ mine = {} /\ base = {} /\ faults = 0
\* the heap: an object is taken at an address not in use
Fresh(s, n) == {t \in SUBSET (Addresses \ s) : Cardinality(t) = n}
Give(s) == /\ live' = live \ s
           /\ faults' = faults + Cardinality(s \ live)
SetUpRun == /\ pc = "set up"
            /\ \E t \in Fresh(live, SetUp) : live' = live \cup t /\ base' = t
            /\ pc' = "event" /\ event' = 0 /\ UNCHANGED <<run, born, mine, faults>>
Begin == /\ pc = "event" /\ event < Events
         /\ \E t \in Fresh(live, 2) : live' = live \cup t /\ mine' = t      \* the list and the primary
         /\ pc' = "steps" /\ born' = 0 /\ event' = event + 1 /\ UNCHANGED <<run, base, faults>>
Birth == /\ pc = "steps" /\ born < Born
         /\ \E t \in Fresh(live, 1) : live' = live \cup t /\ mine' = IF ForgetBorn THEN mine ELSE mine \cup t
         /\ born' = born + 1 /\ UNCHANGED <<pc, run, event, base, faults>>
EndEvent == /\ pc = "steps" /\ Give(mine) /\ pc' = IF Twice THEN "again" ELSE "event"
            /\ mine' = (IF Twice THEN mine ELSE {}) /\ UNCHANGED <<run, event, born, base>>
Again == /\ pc = "again" /\ Give(mine) /\ mine' = {} /\ pc' = "event" /\ UNCHANGED <<run, event, born, base>>
EndRun == /\ pc = "event" /\ event = Events
          /\ IF ForgetRun /\ run < Runs THEN UNCHANGED <<live, faults>> ELSE Give(base)
          /\ base' = {} /\ run' = run + 1
          /\ pc' = IF run = Runs THEN "end" ELSE "set up"
          /\ UNCHANGED <<event, born, mine>>
Next == SetUpRun \/ Begin \/ Birth \/ EndEvent \/ Again \/ EndRun \/ (pc = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* nothing is released that is not held
NeverTwice == faults = 0
\* between events a run holds what it was set up with, however many there were
Between == pc = "event" => live = base
\* between runs nothing is left of earlier ones
Clean == pc \in {"set up", "end"} => live = {}
=============================================================================
