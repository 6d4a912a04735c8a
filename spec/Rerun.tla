------------------------------- MODULE Rerun --------------------------------
(***************************************************************************)
(* A directory in which runs follow each other.  A run reads its input,     *)
(* reports its settings, replaces its output file, writes to it piece by    *)
(* piece, closes it and ends; it may be killed between any two of these,    *)
(* or refuse its input.  Other things happen to the files in between.       *)
(* A file holds the sequence of pieces written to it: <<run, piece>>; a     *)
(* whole output ends with <<run, "end">>.                                   *)
(* What a run that ends normally leaves depends on nothing but the run.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Pieces,          \* pieces of an output
          MaxSteps,        \* runs and other events before the last run
          Replaces,        \* is the output replaced, or added to?
          Begins,          \* is the report begun anew, or continued?
          ChecksFirst,     \* is an input refused before the output is touched?
          Say
Runs == 1..4
\* runs 1 and 2 write to the same file, run 4 is one that is refused
Out(i) == IF i = 3 THEN "b" ELSE "a"
Good(i) == i # 4
Names == {"a", "b", "report", "other"}
VARIABLES dir, now, at, hist, left
vars == <<dir, now, at, hist, left>>
\* now: the run that is running (0: none); at: how far; left: what the last
\* run that ended normally found before it
Foreign == <<<<0, 0>>>>
Init == dir = [n \in Names |-> IF n = "other" THEN Foreign ELSE <<>>] /\ now = 0 /\ at = "" /\ hist = <<>> /\ left = dir
Start(i) == /\ now = 0 /\ Len(hist) < MaxSteps /\ now' = i /\ at' = "read" /\ left' = dir /\ UNCHANGED <<dir, hist>>
Report == /\ at = "read" /\ dir' = [dir EXCEPT !["report"] = (IF Begins THEN <<>> ELSE @) \o <<<<now, 0>>>>]
          /\ at' = "told" /\ UNCHANGED <<now, hist, left>>
\* the order of the two is what ChecksFirst is about
Judge == /\ at = (IF ChecksFirst THEN "told" ELSE "opened")
         /\ IF Good(now) THEN at' = (IF ChecksFirst THEN "judged" ELSE "write") /\ UNCHANGED <<now, hist>>
            ELSE at' = "" /\ now' = 0 /\ hist' = Append(hist, <<"refused", now, "">>)
         /\ UNCHANGED <<dir, left>>
Open == /\ at = (IF ChecksFirst THEN "judged" ELSE "told")
        /\ dir' = [dir EXCEPT ![Out(now)] = IF Replaces THEN <<>> ELSE @]
        /\ at' = (IF ChecksFirst THEN "write" ELSE "opened") /\ UNCHANGED <<now, hist, left>>
Written == Len(SelectSeq(dir[Out(now)], LAMBDA x : x[1] = now))
Write == /\ at = "write" /\ (IF dir[Out(now)] = <<>> THEN TRUE ELSE dir[Out(now)][Len(dir[Out(now)])] # <<now, Pieces>>)
         /\ dir' = [dir EXCEPT ![Out(now)] = Append(@, <<now, (IF @ = <<>> THEN 0 ELSE IF @[Len(@)][1] = now /\ @[Len(@)][2] \in 1..Pieces THEN @[Len(@)][2] ELSE 0) + 1>>)]
         /\ UNCHANGED <<now, at, hist, left>>
End == /\ at = "write" /\ dir[Out(now)] # <<>> /\ dir[Out(now)][Len(dir[Out(now)])] = <<now, Pieces>>
       /\ dir' = [dir EXCEPT ![Out(now)] = Append(@, <<now, 99>>)]
       /\ at' = "" /\ now' = 0 /\ hist' = Append(hist, <<"run", now, "">>) /\ UNCHANGED left
Kill == /\ now # 0 /\ at' = "" /\ now' = 0 /\ UNCHANGED <<dir, left>>
        /\ hist' = Append(hist, <<"kill", now, IF at = "write" THEN (IF dir[Out(now)] = <<>> THEN "opened" ELSE IF dir[Out(now)][Len(dir[Out(now)])] = <<now, Pieces>> THEN "written" ELSE "writing") ELSE at>>)
Spoil(n) == /\ now = 0 /\ Len(hist) < MaxSteps /\ n # "other" /\ dir' = [dir EXCEPT ![n] = Foreign]
            /\ hist' = Append(hist, <<"spoil", 0, n>>) /\ UNCHANGED <<now, at, left>>
Next == \/ \E i \in Runs : Start(i)
        \/ Report \/ Judge \/ Open \/ Write \/ End \/ Kill
        \/ \E n \in {"a", "report"} : Spoil(n)
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------------ laws
Whole(i) == [k \in 1..(Pieces + 1) |-> IF k > Pieces THEN <<i, 99>> ELSE <<i, k>>]
Last == hist[Len(hist)]
AfterRun == now = 0 /\ hist # <<>> /\ Last[1] = "run" => dir[Out(Last[2])] = Whole(Last[2]) /\ dir["report"] = <<<<Last[2], 0>>>>
\* only its own output and report are touched by a run, no output by a refused one
Touched(i) == {"report"} \cup (IF Good(i) THEN {Out(i)} ELSE {})
OthersKept == [][now # 0 => \A n \in Names \ Touched(now) : dir'[n] = dir[n]]_vars
Histories == Say /\ now = 0 /\ Len(hist) = MaxSteps => PrintT(<<"CMD", ToString(hist)>>)
=============================================================================
