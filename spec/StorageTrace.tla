---------------------------- MODULE StorageTrace ----------------------------
(***************************************************************************)
(* The laws of Storage seen from outside.  op "pair": two runs of one       *)
(* set-up that differ in events, steps or births; left: the objects held at *)
(* the end.  op "runs": what a manager holds after each of its runs, set:   *)
(* which settings it had.  op "guarded": the answers of a part of the        *)
(* program in plain storage and in filled and guarded storage.              *)
(***************************************************************************)
EXTENDS Observed
\* up to the results that may or may not share an object (slack): which thread
\* plays an event is left open, and a thread without events holds no results
Same(e) == \A a, b \in 1..Len(e.left) :
    e.set[a] = e.set[b] /\ a > e.warm /\ b > e.warm => e.left[a] - e.left[b] <= e.slack
Verdict(e) ==
    CASE e.op = "pair" -> FirstBroken(<<
            <<"no fault of storage, no signal", \A r \in {e.a, e.b} : r.status = 0 /\ r.faults = 0>>,
            <<"what is left does not depend on the number of events, steps and births", e.a.left = e.b.left>> >>)
      [] e.op = "runs" -> FirstBroken(<<
            <<"no fault of storage, no signal", e.status = 0 /\ e.faults = 0 /\ Len(e.left) = e.made>>,
            <<"a run leaves nothing of the runs before it", Same(e)>> >>)
      [] e.op = "guarded" -> FirstBroken(<<
            <<"answers do not depend on what storage holds at first and lies next to", e.plain = e.guarded>> >>)
      [] OTHER -> "unexpected event " \o e.op
=============================================================================
