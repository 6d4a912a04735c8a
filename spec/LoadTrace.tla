----------------------------- MODULE LoadTrace ------------------------------
(* How a process starts without one of the tables it needs.                  *)
EXTENDS Observed
Needs(proc) == IF proc = "pair" THEN {"pairprod.table", "e_split.table", "epsilon.table", "log_chi.table"}
               ELSE {"hsokolov.table", "ksi_sokolov.table", "chimin.table"}
Verdict(e) ==
    CASE e.op = "notable" -> IF e.missing \in Needs(e.proc)
            THEN FirstBroken(<<
                <<"refused with an error", e.sig = 0 /\ e.exit > 0>>,
                <<"naming the file", e.named>> >>)
            ELSE FirstBroken(<< <<"starts with all it needs", e.sig = 0 /\ e.exit = 0>> >>)
      [] OTHER -> "unexpected event " \o e.op
=============================================================================
