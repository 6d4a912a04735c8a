----------------------------- MODULE DataFileGen ----------------------------
(* Every history of openings and calls up to a length: laws, and commands.   *)
EXTENDS DataFile, TLC
CONSTANTS MaxCalls, MaxOpens
VARIABLES f, open, hist, calls, opens
vars == <<f, open, hist, calls, opens>>
Paths == {<<"A">>, <<"B">>, <<"A", "B">>, <<"A", "B", "C">>}
Init == f = NoFile /\ open = FALSE /\ hist = <<>> /\ calls = 0 /\ opens = 0
Open == /\ ~open /\ opens < MaxOpens
        /\ \E m \in {"new", "append"} :
              /\ hist' = Append(hist, <<m>>)
              /\ open' = Opens(f, m)
              /\ f' = IF Opens(f, m) THEN Opened(f, m) ELSE f
        /\ opens' = opens + 1 /\ UNCHANGED calls
\* something else, or nothing, is where the file was
Lose == /\ ~open /\ opens < MaxOpens /\ f.here /\ \E m \in {"garbage", "gone"} : hist' = Append(hist, <<m>>)
        /\ f' = NoFile /\ opens' = opens + 1 /\ UNCHANGED <<open, calls>>
Call == /\ open /\ calls < MaxCalls
        /\ \E o \in {"group", "sub", "array"}, p \in Paths, d \in {<<2>>, <<2, 3>>} :
              /\ o # "array" => d = <<2>>
              /\ LET c == [o |-> o, path |-> p, dims |-> d, data |-> calls] IN
                    f' = Done(f, c) /\ hist' = Append(hist, <<o, p, d>>)
        /\ calls' = calls + 1 /\ UNCHANGED <<open, opens>>
Close == open /\ open' = FALSE /\ hist' = Append(hist, <<"close">>) /\ UNCHANGED <<f, calls, opens>>
Next == Open \/ Lose \/ Call \/ Close
Spec == Init /\ [][Next]_vars
PlacedLaw == Placed(f)
\* what is written stays until the file is replaced or lost
Kept == [][ \/ hist'[Len(hist')][1] \in {"new", "garbage", "gone"}
            \/ f.groups \subseteq f'.groups /\ f.arrays \subseteq f'.arrays ]_vars
\* a refused call changes nothing, and every other one shows
Report == ~open /\ opens = MaxOpens /\ calls >= MaxCalls - 1 => PrintT(<<"CMD", ToString(hist)>>)
=============================================================================
