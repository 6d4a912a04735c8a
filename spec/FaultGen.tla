------------------------------ MODULE FaultGen ------------------------------
(***************************************************************************)
(* Every way in which one operation of a recorded run can go wrong, alone   *)
(* or with all that follow: the faults of Durable, spelt out.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE plan
\* how often each run did what to which class of file when nothing failed
Counts == ndJsonDeserialize(IOEnv.COUNTS)
Ways(class, kind) ==
    CASE kind = "open" -> {"EACCES", "EMFILE", "ENOSPC"} \X {0, 1}
      [] kind = "read" -> ({"EIO"} \X {0, 1}) \cup {<<"EINTR", 1>>, <<"EINTR", 3>>, <<"short", 1>>, <<"short", 0>>}
                          \cup (IF class = "table" THEN {<<"cut", 1>>} ELSE {})
      [] kind = "write" -> ({"EIO", "ENOSPC"} \X {0, 1}) \cup {<<"EINTR", 1>>, <<"EINTR", 3>>, <<"short", 1>>, <<"short", 0>>, <<"full", 0>>}
      [] OTHER -> {<<"EIO", 0>>, <<"EIO", 1>>}
Init == \E i \in 1..Len(Counts) : LET c == Counts[i] IN
            \E first \in 1..c.n, way \in Ways(c.class, c.kind) :
                plan = [run |-> c.run, class |-> c.class, kind |-> c.kind, first |-> first, how |-> way[1], count |-> way[2]]
Next == FALSE /\ UNCHANGED plan
Told == PrintT(<<"CMD", plan.run, plan.class, plan.kind, plan.first, plan.count, plan.how>>)
=============================================================================
