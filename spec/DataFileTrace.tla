---------------------------- MODULE DataFileTrace ---------------------------
(***************************************************************************)
(* Sessions of the real class, each with what an independent reader found   *)
(* in the file after every closing.  e.opens: [mode, ok, calls, found];     *)
(* a call: [o, path, dims, data, ok].                                       *)
(***************************************************************************)
EXTENDS DataFile, Observed
RECURSIVE Answers(_, _)
Answers(f, cs) == IF cs = <<>> THEN TRUE ELSE Head(cs).ok = Allowed(f, Head(cs)) /\ Answers(Done(f, Head(cs)), Tail(cs))
Found(x) == [here |-> x.open, groups |-> {x.groups[i] : i \in 1..Len(x.groups)},
             arrays |-> {<<x.sets[i].path, x.sets[i].dims, x.sets[i].data>> : i \in 1..Len(x.sets)}]
Start(f, o) == IF o.mode \in {"garbage", "gone"} THEN NoFile
               ELSE IF Opens(f, o.mode) THEN Opened(f, o.mode) ELSE f
RECURSIVE Session(_, _)
Session(f, os) ==
    IF os = <<>> THEN ""
    ELSE LET o == Head(os)
             lost == o.mode \in {"garbage", "gone"}
             g == AfterAll(Start(f, o), o.calls)
         IN  IF ~lost /\ o.ok # Opens(f, o.mode) THEN "opens exactly when it can"
             ELSE IF ~Answers(Start(f, o), o.calls) THEN "a call is refused exactly when there is no room for it"
             ELSE IF Found(o.found).here # g.here THEN "there is a file exactly when one was written"
             ELSE IF Found(o.found).groups # g.groups THEN "the groups are those asked for"
             ELSE IF Found(o.found).arrays # g.arrays THEN "the arrays hold what was written"
             ELSE Session(g, Tail(os))
Verdict(e) == IF e.status # 0 THEN "the session is ended by a signal or an error" ELSE Session(NoFile, e.opens)
=============================================================================
