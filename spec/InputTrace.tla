----------------------------- MODULE InputTrace -----------------------------
EXTENDS Input, Observed
Ref == ndJsonDeserialize(IOEnv.REF)[1]
Same(a, b) == RClose(a, b, RDec("1e-12"), 0)
VSame(a, b) == Same(a[1], b[1]) /\ Same(a[2], b[2]) /\ Same(a[3], b[3])
Reals == {"dt", "end", "max", "lam", "pol", "tau", "waist", "emin", "frac", "e", "esig", "radius", "div", "time", "lo", "hi"}
Vectors == {"dir", "start", "focus", "x"}
\* k is a component of both want and got
Equal(k, want, got, field) ==
    IF (field /\ k \in {"e", "b"}) \/ k \in Vectors THEN VSame(want[k], got[k])
    ELSE IF k \in Reals THEN Same(want[k], got[k])
    ELSE want[k] = got[k]
RECURSIVE Differing(_, _, _, _)
Differing(ks, want, got, field) ==
    IF ks = {} THEN "" ELSE LET k == CHOOSE x \in ks : TRUE IN IF Equal(k, want, got, field) THEN Differing(ks \ {k}, want, got, field) ELSE k
Part(name, want, got, field) == LET d == Differing(DOMAIN want, want, got, field) IN IF d = "" THEN "" ELSE name \o " " \o d
RECURSIVE Each(_, _, _, _)
Each(name, want, got, i) ==
    IF i > Len(want) THEN "" ELSE LET d == Part(name, want[i], got[i], FALSE) IN IF d # "" THEN d ELSE Each(name, want, got, i + 1)
RECURSIVE First(_)
First(s) == IF s = <<>> THEN "" ELSE IF Head(s) # "" THEN Head(s) ELSE First(Tail(s))
Read3(want, got) == First(<<
    Part("general", want.general, got.general, FALSE),
    Part("field", want.field, got.field, TRUE),
    Part("physics", want.physics, got.physics, FALSE),
    IF Len(want.src) # Len(got.src) THEN "number of sources" ELSE Each("source", want.src, got.src, 1),
    IF Len(want.hist) # Len(got.hist) THEN "number of histograms" ELSE Each("histogram", want.hist, got.hist, 1) >>)

Verdict(e) ==
    CASE e.op = "parse" ->
            LET r == Read(e.lines)  fault == FileFault(r)
            IN  IF e.sig # 0 THEN "killed by a signal"
                ELSE IF fault # "" THEN (IF e.read THEN "accepts a file with " \o fault ELSE IF e.exit = 0 THEN "reports success for " \o fault
                                         ELSE IF ~e.said THEN "says nothing about " \o fault ELSE "")
                ELSE IF ~e.read \/ e.exit # 0 THEN "refuses a valid file"
                ELSE Read3(Settings(r, Ref), e.got)
      \* the program itself: args are its arguments, ran says that it left an output file
      [] e.op = "main" ->
            LET r == Read(e.lines)
                named == Len(e.args) = 1 /\ Len(e.args[1]) >= 4 /\ SubSeq(e.args[1], Len(e.args[1]) - 3, Len(e.args[1])) = ".ini"
                fault == IF Len(e.args) # 1 THEN "wrong number of arguments" ELSE IF ~named THEN "not an input file"
                         ELSE IF ~e.exists THEN "missing file" ELSE RunFault(r)
            IN  IF e.sig # 0 THEN "killed by a signal"
                ELSE IF e.hang THEN "hangs"
                ELSE IF fault # "" THEN (IF e.exit = 0 THEN "reports success for " \o fault ELSE IF ~e.said THEN "says nothing about " \o fault
                                         ELSE IF e.ran THEN "simulates in spite of " \o fault ELSE "")
                ELSE IF LateFault(r) THEN (IF e.exit = 0 THEN "reports success for unknown particles" ELSE IF ~e.said THEN "says nothing about unknown particles" ELSE "")
                ELSE IF e.exit # 0 THEN "refuses valid input" ELSE IF ~e.ran THEN "no output file" ELSE ""
      [] OTHER -> "unexpected event " \o e.op
=============================================================================
