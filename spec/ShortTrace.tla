----------------------------- MODULE ShortTrace -----------------------------
(***************************************************************************)
(* A run with one damaged table: it has only good numbers before it ends or *)
(* something that is not a number follows.  A run that needs the table is   *)
(* refused exactly when it needs more; n: rows and columns as the headers   *)
(* of the tables have them.                                                 *)
(***************************************************************************)
EXTENDS Observed
Needed(e) ==
    CASE e.file = "hsokolov.table" -> 1 + 2 * e.nh
      [] e.file = "ksi_sokolov.table" -> 4 + e.neta * e.nchi
      [] e.file = "chimin.table" -> e.neta
      [] e.file = "pairprod.table" -> 1 + 2 * e.nt
      [] e.file = "e_split.table" -> 1 + e.ns * e.ns
      [] OTHER -> e.ns
Used(e) == e.pair \/ e.file \in {"hsokolov.table", "ksi_sokolov.table", "chimin.table"}
Verdict(e) ==
    CASE e.op = "short" -> IF Used(e) /\ e.good < Needed(e)
            THEN FirstBroken(<<
                <<"an incomplete table is refused with an error", e.status # 0 /\ e.status # 3000>>,
                <<"naming the file", e.named>> >>)
            ELSE FirstBroken(<<
                <<"a run with all it needs ends normally", e.status = 0>>,
                <<"and has the results of complete tables", e.same>> >>)
      [] OTHER -> "unexpected event " \o e.op
=============================================================================
