------------------------------ MODULE Durable -------------------------------
(***************************************************************************)
(* A run between its files and its end.  It reads the blocks of what it is  *)
(* given, hands the pieces of its results to a library that keeps them for  *)
(* as long as it likes, closes the output and ends with a status.  Any      *)
(* operation on a file can fail, be repeated (interrupted, or done in part) *)
(* or, when reading, find the file ending early.  What the run owes its     *)
(* user: status 0 means that everything was read and everything is on disk. *)
(* A piece that could not be written is lost: the library tries only once.  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Blocks,        \* blocks of the files the run needs
          Pieces,        \* pieces of its results
          Faults,        \* at most so many operations go wrong
          HeedRead, HeedWrite, HeedClose   \* does the run look at the outcome?
VARIABLES phase, got, held, disk, failed, faults, again, status
vars == <<phase, got, held, disk, failed, faults, again, status>>

Init == /\ phase = "read" /\ got = 0 /\ held = {} /\ disk = {}
        /\ failed = FALSE /\ faults = 0 /\ again = 0 /\ status = 99

\* reading: true blocks, a failure or early end, or another try
Read == /\ phase = "read" /\ ~failed /\ got < Blocks
        /\ got' = got + 1 /\ UNCHANGED <<phase, held, disk, failed, faults, again, status>>
ReadFails == /\ phase = "read" /\ ~failed /\ got < Blocks /\ faults < Faults
             /\ failed' = TRUE /\ faults' = faults + 1 /\ UNCHANGED <<phase, got, held, disk, again, status>>
Again == /\ phase # "ended" /\ again < Faults
         /\ again' = again + 1 /\ UNCHANGED <<phase, got, held, disk, failed, faults, status>>
\* with what it has, or believes to have, it computes and hands over results
Work == /\ phase = "read" /\ (got = Blocks \/ (failed /\ ~HeedRead))
        /\ phase' = "write" /\ failed' = (failed /\ HeedRead) /\ UNCHANGED <<got, held, disk, faults, again, status>>
Given == held \cup disk
Give(p) == /\ phase = "write" /\ ~(failed /\ HeedWrite) /\ p \notin Given
           /\ held' = held \cup {p} /\ UNCHANGED <<phase, got, disk, failed, faults, again, status>>
\* at a time of the library's choosing
Spill(p) == /\ phase \in {"write", "close"} /\ p \in held
            /\ held' = held \ {p} /\ disk' = disk \cup {p} /\ UNCHANGED <<phase, got, failed, faults, again, status>>
Lose(p) == /\ phase \in {"write", "close"} /\ p \in held /\ faults < Faults
           /\ held' = held \ {p} /\ failed' = TRUE /\ faults' = faults + 1
           /\ UNCHANGED <<phase, got, disk, again, status>>
Finish == /\ phase = "write" /\ ~(failed /\ HeedWrite)
          /\ Cardinality(Given) + faults >= Cardinality(Pieces)   \* all were given, some may be lost
          /\ phase' = "close" /\ UNCHANGED <<got, held, disk, failed, faults, again, status>>
End == /\ phase = "close" /\ held = {} /\ (HeedClose => ~failed)
       /\ phase' = "ended" /\ status' = 0 /\ UNCHANGED <<got, held, disk, failed, faults, again>>
Stop == /\ failed
        /\ CASE phase = "read" -> HeedRead [] phase = "write" -> HeedWrite [] phase = "close" -> HeedClose [] OTHER -> FALSE
        /\ phase' = "ended" /\ status' = 1 /\ UNCHANGED <<got, held, disk, failed, faults, again>>
Next == Read \/ ReadFails \/ Again \/ Work \/ (\E p \in Pieces : Give(p) \/ Spill(p) \/ Lose(p)) \/ Finish \/ End \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Read \/ Work \/ (\E p \in Pieces : Give(p) \/ Spill(p)) \/ Finish \/ End \/ Stop)

Whole == status = 0 => got = Blocks /\ disk = Pieces
Unprovoked == status = 1 => faults > 0
Ends == <>(phase = "ended")
=============================================================================
