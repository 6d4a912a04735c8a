------------------------------ MODULE InputGen ------------------------------
(***************************************************************************)
(* Writing an input file: a fixed set of settings, each of which can be     *)
(* written in many ways.  All files with at most Odd unusual ways of        *)
(* writing something are made; the law is that none of them changes the     *)
(* settings.  Every file is printed for the real reader.                    *)
(***************************************************************************)
EXTENDS Input
CONSTANT Odd, Say
VARIABLES lines, todo, odd

\* entries: section, key, ways of writing the value (the first is plain)
E(s, k, v) == [s |-> s, k |-> k, v |-> v]
General1 == <<E("General", "units", <<"SI", "si">>),
              E("General", "time_step", <<"1e-16", "1.0E-16", "+0.1e-15", ".1e-15", "0.0000000000000001">>),
              E("General", "time_end", <<"2e-15", "2.E-15">>),
              E("General", "file_name", <<"some out.h5">>),
              E("General", "tracking", <<"true", "YES", "on", "1", "True">>)>>
Field1   == <<E("Field", "field_type", <<"static">>),
              E("Field", "e_field", <<"[1e12 -2 0.5]", "1e12,-2,0.5", "(1e12, -2, +.5)", "1e12;-2;0.5", "{1E12|-2.0|5e-1}", "<1e12 / -2 / 0.5>">>)>>
Particle == <<E("Particle1", "number_particles", <<"12", "0xC", "+12">>),
              E("Particle1", "position", <<"[0 0 -1e-6]", "0 0 -1e-6">>),
              E("Particle1", "output", <<"no", "FALSE", "Off", "0">>),
              E("Particle1", "direction", <<"[1 2 3]">>)>>
Physics1 == <<E("Physics", "radiation_model", <<"Quantum">>),
              E("Physics", "min_energy", <<"1e-16">>)>>
Orders == {General1 \o Field1 \o Particle \o Physics1, Physics1 \o Particle \o Field1 \o General1}
\* a section may be taken up again
Split == {SubSeq(General1, 1, 2) \o Field1 \o Particle \o SubSeq(General1, 3, 5) \o Physics1}

Upper(s) == LET RECURSIVE U(_)
                U(t) == IF t = "" THEN "" ELSE (LET c == At(t, 1)  w == {x \in DOMAIN LowerOf : LowerOf[x] = c} IN IF w = {} THEN c ELSE CHOOSE x \in w : TRUE) \o U(SubSeq(t, 2, Len(t)))
            IN  U(s)
\* ways of writing a line around its key and value
Before == {<<"">>, <<"# note = 3">>, <<"; time_step = 7">>, <<"   # e_field = [7 7 7]">>, <<"\t">>, <<"", " ; [Other]", "">>}
Lines(e, v, how) ==
    CASE how = "plain" -> <<e.k \o " = " \o v>>
      [] how = "tight" -> <<e.k \o "=" \o v>>
      [] how = "colon" -> <<e.k \o ": " \o v>>
      [] how = "tabs"  -> <<e.k \o "\t=\t" \o v \o "\t">>
      [] how = "upper" -> <<Upper(e.k) \o " = " \o v>>
      [] how = "crlf"  -> <<e.k \o " = " \o v \o "\r">>
      [] how = "note"  -> <<e.k \o " = " \o v \o " ; was = [9, 9]">>
      [] how = "note2" -> <<e.k \o "=" \o v \o "\t;9">>
      [] how = "next"  -> IF e.k \in {"e_field", "position", "time_step"} THEN <<e.k \o " =", "   " \o v>> ELSE <<e.k \o " = " \o v>>
      [] how = "rows"  -> IF e.k = "direction" THEN <<e.k \o " = [1", "  2", "# middle", "\t3]">> ELSE <<e.k \o " = " \o v>>
Ways == {"tight", "colon", "tabs", "upper", "crlf", "note", "note2", "next", "rows"}
Heading(s, how) == CASE how = "plain" -> "[" \o s \o "]" [] how = "upper" -> "[" \o Upper(s) \o "]" [] how = "lower" -> "[" \o Lower(s) \o "]"
                     [] how = "note" -> "[" \o s \o "] ; note" [] how = "tail" -> "[" \o s \o "]  "

New == IF Len(todo.done) = 0 THEN TRUE ELSE Head(todo.left).s # todo.done[Len(todo.done)].s
Put(ls, cost) ==
    /\ odd + cost <= Odd /\ odd' = odd + cost
    /\ lines' = lines \o ls
    /\ todo' = [left |-> Tail(todo.left), done |-> Append(todo.done, Head(todo.left))]
Init == lines = <<>> /\ odd = 0 /\ \E o \in Orders \cup Split : todo = [left |-> o, done |-> <<>>]
Next ==
    /\ todo.left # <<>>
    /\ LET e == Head(todo.left)
           h == IF New THEN <<Heading(e.s, "plain")>> ELSE <<>>
       IN  \/ Put(h \o Lines(e, e.v[1], "plain"), 0)
           \/ \E w \in Ways : Put(h \o Lines(e, e.v[1], w), 1)
           \/ \E i \in 2..Len(e.v) : Put(h \o Lines(e, e.v[i], "plain"), 1)
           \/ \E b \in Before : Put(h \o b \o Lines(e, e.v[1], "plain"), 1)
           \/ New /\ Put(h \o <<"\t " \o e.k \o " = " \o e.v[1]>>, 1)      \* the first setting of a section may be indented
           \/ New /\ \E w \in {"upper", "lower", "note", "tail"} : Put(<<Heading(e.s, w)>> \o Lines(e, e.v[1], "plain"), 1)
Whole1 == todo.left = <<>>
One == [time |-> 1, length |-> 1, efield |-> 1, bfield |-> 1, momentum |-> 1, energy |-> 1]
Plain == Read(<<"[General]", "units = SI", "time_step = 1e-16", "time_end = 2e-15", "file_name = some out.h5", "tracking = true",
                "[Field]", "field_type = static", "e_field = 1e12 -2 0.5", "[Particle1]", "number_particles = 12", "position = 0 0 -1e-6", "output = no", "direction = 1 2 3",
                "[Physics]", "radiation_model = Quantum", "min_energy = 1e-16">>)
Meant == [general |-> [units |-> "SI", dt |-> RDec("1e-16"), end |-> RDec("2e-15"), file |-> "some out.h5", track |-> TRUE],
          field |-> [kind |-> "static", e |-> <<RDec("1e12"), RDec("-2"), RDec("0.5")>>, b |-> O3],
          physics |-> [model |-> "Quantum", emin |-> RDec("1e-16"), frac |-> 1, pair |-> FALSE],
          src |-> <<[num |-> 12, name |-> "Particle1", who |-> "Electron", distro |-> "mono", x |-> <<0, 0, RDec("-1e-6")>>, dir |-> <<1, 2, 3>>,
                     e |-> 0, esig |-> 0, radius |-> 0, div |-> 0, tau |-> 0, out |-> FALSE]>>, hist |-> <<>>]
\* equality of the texts of all entries up to the way numbers are written
Num1(a, b) == RSame(a, b)
V1(a, b) == \A i \in 1..3 : RSame(a[i], b[i])
Law == Whole1 =>
    LET s == Settings(Read(lines), One)  g == s.general  q == s.src
    IN  /\ g.units \in {"SI", "si"} /\ Num1(g.dt, Meant.general.dt) /\ Num1(g.end, Meant.general.end) /\ g.file = Meant.general.file /\ g.track
        /\ s.field.kind = "static" /\ V1(s.field.e, Meant.field.e) /\ V1(s.field.b, O3)
        /\ s.physics.model = "Quantum" /\ Num1(s.physics.emin, Meant.physics.emin) /\ Num1(s.physics.frac, 1) /\ ~s.physics.pair
        /\ Len(q) = 1 /\ q[1].num = 12 /\ V1(q[1].x, Meant.src[1].x) /\ V1(q[1].dir, Meant.src[1].dir) /\ ~q[1].out
        /\ q[1].name = "Particle1" /\ q[1].who = "Electron" /\ q[1].distro = "mono"
        /\ s.hist = <<>> /\ FileFault(Read(lines)) = "" /\ RunFault(Read(lines)) = "" /\ ~LateFault(Read(lines))
RECURSIVE Joined(_)
Joined(ls) == IF ls = <<>> THEN "" ELSE Head(ls) \o "\n" \o Joined(Tail(ls))
Report == Say /\ Whole1 => PrintT(<<"CMD", Joined(lines)>>)
=============================================================================
