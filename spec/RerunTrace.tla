----------------------------- MODULE RerunTrace -----------------------------
(***************************************************************************)
(* Histories of a directory in which the real program ran again and again. *)
(* e.first: the files at the beginning; e.fresh[i]: what run i leaves in an *)
(* empty directory; a step: [ev, i, status, files], where files is all that *)
(* was found below the directory after it: [name, raw, text], raw standing  *)
(* for the bytes and text for what an independent reader sees.              *)
(* A directory is a function from names to [raw, text].                     *)
(***************************************************************************)
EXTENDS Observed
Dir(fs) == LET names == {fs[k].name : k \in 1..Len(fs)}
           IN  [n \in names |-> LET k == CHOOSE k \in 1..Len(fs) : fs[k].name = n IN [raw |-> fs[k].raw, text |-> fs[k].text]]
Kept(d, g, names) == \A n \in DOMAIN d \ names : n \in DOMAIN g /\ g[n] = d[n]
Report == "input-check.txt"
AfterRun(d, g, x, f) == FirstBroken(<<
    <<"a run that can run does run", x.status = 0>>,
    <<"a run touches its own output and report only", Kept(d, g, {f.out, Report})>>,
    <<"a run leaves its output and report and nothing else", DOMAIN g = DOMAIN d \cup {f.out, Report}>>,
    <<"an output depends on the run alone", g[f.out].text = f.text /\ f.text # "">>,
    <<"a report depends on the run alone", g[Report].raw = f.report>> >>)
AfterKill(d, g, x, f) == FirstBroken(<<
    <<"a run ends by itself or is killed", x.status \in {0, 1009}>>,
    <<"a killed run touches its own output and report only", Kept(d, g, {f.out, Report})>> >>)
AfterRefusal(d, g, x) == FirstBroken(<<
    <<"what cannot run is refused", x.status \in 1..255>>,
    <<"a refused run touches no output", Kept(d, g, {Report}) /\ DOMAIN g \subseteq DOMAIN d \cup {Report}>> >>)
Step(d, g, x, e) ==
    CASE x.ev = "spoil" -> ""
      [] x.ev = "refused" -> AfterRefusal(d, g, x)
      [] x.ev = "kill" /\ x.i = 4 -> IF x.status = 1009 THEN IF Kept(d, g, {Report}) THEN "" ELSE "a killed run touches its own output and report only" ELSE AfterRefusal(d, g, x)
      [] x.ev = "kill" /\ x.status # 0 -> AfterKill(d, g, x, e.fresh[x.i])
      [] OTHER -> AfterRun(d, g, x, e.fresh[x.i])
RECURSIVE Fold(_, _, _)
Fold(d, k, e) == IF k > Len(e.steps) THEN ""
                 ELSE LET g == TLCEval(Dir(e.steps[k].files))
                          v == Step(d, g, e.steps[k], e)
                      IN  IF v # "" THEN v ELSE Fold(g, k + 1, e)
Verdict(e) == Fold(Dir(e.first), 1, e)
=============================================================================
