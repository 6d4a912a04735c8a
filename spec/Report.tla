------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* The report of a run, input-check.txt: a block for each part of the      *)
(* settings, made of a title and of lines "label = value".  Shows(s) gives  *)
(* the lines that every block of the settings s has.                       *)
(***************************************************************************)
EXTENDS Input, FiniteSets

\* ------------------------------------------------------------ what it says
RECURSIVE Cut(_, _)
Cut(s, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = "=" THEN i ELSE Cut(s, i + 1)
\* the text as blocks [title, lines], lines being pairs of label and value
RECURSIVE Blocks(_, _, _)
Blocks(lines, i, acc) ==
    IF i > Len(lines) THEN acc
    ELSE LET t == Strip(lines[i])  k == Cut(t, 1)
         IN  IF t = "" THEN Blocks(lines, i + 1, acc)
             ELSE IF k = 0 THEN Blocks(lines, i + 1, Append(acc, [title |-> t, lines |-> <<>>]))
             ELSE IF acc = <<>> THEN Blocks(lines, i + 1, <<[title |-> "", lines |-> <<t>>]>>)
             ELSE Blocks(lines, i + 1, [acc EXCEPT ![Len(acc)].lines = Append(@, <<Strip(SubSeq(t, 1, k - 1)), Strip(SubSeq(t, k + 1, Len(t)))>>)])

\* --------------------------------------------------------- what it must say
T(l, v) == <<l, "text", v>>
N(l, v) == <<l, "real", v>>
V(l, v) == <<l, "vector", v>>
B(l, v) == <<l, "flag", v>>
C(l, v) == <<l, "count", v>>
GeneralLines(g) == <<T("Units", g.units), N("Time step", g.dt), N("Time end", g.end), T("Output file", g.file), B("Tracking", g.track)>>
FieldLines(f) ==
    <<T("Field type", f.kind)>> \o
    CASE f.kind = "static" -> <<V("E strength", f.e), V("B strength", f.b)>>
      [] f.kind = "plane" -> <<N("Wavelength", f.lam), V("Direction", f.dir), N("Polerisation", f.pol)>>
      [] OTHER -> <<N("Max E", f.max), N("Duration", f.tau), N("Waist", f.waist), N("Wavelength", f.lam), V("Start", f.start), V("Focus", f.focus)>>
PhysicsLines(p) == <<T("Physics module used", p.model), B("Pair production", p.pair), N("Sample fraction", p.frac), N("Minimum photon energy", p.emin)>>
SourceLines(s) == <<T("Name", s.name), C("Number", s.num), T("Type", s.who), N("Energy1", s.e), N("Energy2", s.esig), N("Radius", s.radius),
                    N("Divergence", s.div), N("Duration", s.tau), B("Output", s.out), V("Direction", s.dir), V("Position", s.x)>>
HistogramLines(h) == <<T("Name", h.name), T("Particle", h.who), N("Time", h.time), C("Bins", h.bins), N("Min Bin", h.lo), N("Max Bin", h.hi)>>
Shows(s) ==
    <<[title |-> "General input parameters", lines |-> GeneralLines(s.general)]>>
    \o (IF s.field.kind = "" THEN <<>> ELSE <<[title |-> "Field input parameters", lines |-> FieldLines(s.field)]>>)
    \o [i \in 1..Len(s.src) |-> [title |-> "Particle " \o ToString(i), lines |-> SourceLines(s.src[i])]]
    \o <<[title |-> "Physics parameters", lines |-> PhysicsLines(s.physics)]>>
    \o [i \in 1..Len(s.hist) |-> [title |-> "Histogram " \o ToString(i), lines |-> HistogramLines(s.hist[i])]]

\* six digits are shown
Digits == RDec("5.1e-6")
RealIs(t, v) == NumberEnd(t, 1) = Len(t) + 1 /\ t # "" /\ RClose(NumberAt(t, 1), v, Digits, 0)
VectorIs(t, v) == LET n == Numbers(t, 1) IN Len(n) = 3 /\ \A i \in 1..3 : RClose(n[i], v[i], Digits, 0)
LineIs(want, got) ==
    CASE want[2] = "text" -> got = Strip(want[3])
      [] want[2] = "real" -> RealIs(got, want[3])
      [] want[2] = "vector" -> VectorIs(got, want[3])
      [] want[2] = "flag" -> AsBool(got, ~want[3]) = want[3]
      [] want[2] = "count" -> got # "" /\ AsInt(got, want[3] + 1) = want[3]
Has1(label, lines) == Cardinality({i \in 1..Len(lines) : lines[i][1] = label}) = 1
ValueOf(label, lines) == lines[CHOOSE i \in 1..Len(lines) : lines[i][1] = label][2]
RECURSIVE WrongLine(_, _, _)
WrongLine(want, got, i) ==
    IF i > Len(want) THEN ""
    ELSE IF ~Has1(want[i][1], got) THEN "does not show " \o want[i][1]
    ELSE IF ~LineIs(want[i], ValueOf(want[i][1], got)) THEN "shows a wrong " \o want[i][1]
    ELSE WrongLine(want, got, i + 1)
RECURSIVE WrongBlock(_, _, _)
WrongBlock(want, got, i) ==
    IF i > Len(want) THEN ""
    ELSE LET k == {j \in 1..Len(got) : got[j].title = want[i].title}
         IN  IF Cardinality(k) # 1 THEN "not one block " \o want[i].title
             ELSE LET d == WrongLine(want[i].lines, got[CHOOSE j \in k : TRUE].lines, 1)
                  IN  IF d # "" THEN want[i].title \o " " \o d ELSE WrongBlock(want, got, i + 1)
Numbered2(what, n) == {what \o " " \o ToString(i) : i \in 1..n}
\* nothing that is not in the settings, and numbered blocks in their order
Ordered(what, n, got) == LET mine == SelectSeq(got, LAMBDA b : b.title \in Numbered2(what, n)) IN \A i \in 1..Len(mine) : mine[i].title = what \o " " \o ToString(i)
WrongReport(s, text) ==
    LET got == Blocks(text, 1, <<>>)  want == Shows(s)  d == WrongBlock(want, got, 1)
    IN  IF d # "" THEN d
        ELSE IF Len(got) # Len(want) THEN "has a block that is not of the settings"
        ELSE IF ~Ordered("Particle", Len(s.src), got) \/ ~Ordered("Histogram", Len(s.hist), got) THEN "blocks are out of order"
        ELSE ""
=============================================================================
