----------------------------- MODULE GatherGen ------------------------------
(* Schedules: the order in which the ranks act, for the real program. *)
EXTENDS Gather, TLC
LogWho(r) == hist' = Append(hist, r)
Report == Finished => PrintT(<<"CMD", ToString(hist)>>)
=============================================================================
