----------------------------- MODULE RefusalGen -----------------------------
(***************************************************************************)
(* Faulty input: a good file to which up to Most faults are done, one after *)
(* the other.  The laws say that every faulty file is refused and the good  *)
(* one, and harmless changes of it, are not.  Every file is printed for the *)
(* real program.                                                           *)
(***************************************************************************)
EXTENDS Input, FiniteSets
CONSTANT Most, Say
VARIABLES file, faults, changes

Good == <<<<"General", <<<<"units", "SI">>, <<"time_step", "1e-24">>, <<"time_end", "2e-24">>, <<"file_name", "out.h5">>>>>>,
          <<"Field", <<<<"field_type", "static">>, <<"e_field", "[1 0 0]">>, <<"b_field", "[0 0 0]">>>>>>,
          <<"Particle1", <<<<"number_particles", "2">>, <<"particle_type", "Electron">>, <<"energy_mean", "1e-10">>, <<"position", "[0 0 0]">>, <<"direction", "[0 1 0]">>, <<"output", "true">>>>>>,
          <<"Physics", <<<<"radiation_model", "Quantum">>, <<"pair_production", "true">>>>>> >>
Sec(n) == {i \in 1..Len(file) : file[i][1] = n}
Drop(n) == SelectSeq(file, LAMBDA s : s[1] # n)
Rename(n, m) == [i \in 1..Len(file) |-> IF file[i][1] = n THEN <<m, file[i][2]>> ELSE file[i]]
Edit(n, k, Op(_)) == [i \in 1..Len(file) |-> IF file[i][1] = n THEN <<n, Op(file[i][2])>> ELSE file[i]]
Less(n, k) == Edit(n, k, LAMBDA es : SelectSeq(es, LAMBDA e : e[1] # k))
Put(n, k, v) == Edit(n, k, LAMBDA es : Append(SelectSeq(es, LAMBDA e : e[1] # k), <<k, v>>))
Has1(n, k) == \E i \in Sec(n) : \E j \in 1..Len(file[i][2]) : file[i][2][j][1] = k

\* <<name of the fault, the file with it>>
Faults ==
    (IF Sec("General") = {} THEN {} ELSE
        {<<"no general", Drop("General")>>, <<"general misspelt", Rename("General", "Generally")>>}
        \cup {<<"no " \o k, Less("General", k)>> : k \in {x \in {"units", "time_step", "time_end"} : Has1("General", x)}}
        \cup {<<"units " \o u, Put("General", "units", u)>> : u \in {"cgs", "Si", "SI units"}}
        \cup {<<"step " \o t, Put("General", "time_step", t)>> : t \in {"0", "-1e-24", "soon", ""}})
    \cup (IF Sec("Field") = {} THEN {} ELSE
        {<<"no field", Drop("Field")>>, <<"no field type", Less("Field", "field_type")>>, <<"long e", Put("Field", "e_field", "[1 2 3 4]")>>,
         <<"long b", Put("Field", "b_field", "1,2,3,4,5")>>}
        \cup {<<"field " \o f, Put("Field", "field_type", f)>> : f \in {"laser", "Static", "static field"}})
    \cup (IF Sec("Particle1") = {} THEN {} ELSE
        {<<"long place", Put("Particle1", "position", "0 0 0 0")>>, <<"long direction", Put("Particle1", "direction", "[1, 0, 0, 0]")>>,
         <<"minus one", Put("Particle1", "number_particles", "-1")>>, <<"minus hex", Put("Particle1", "number_particles", "-0x10")>>,
         <<"minus bins", Append(file, <<"Histogram1", <<<<"particle", "Electron">>, <<"type", "energy">>, <<"bins", "-3">>>>>>)>>,
         <<"particle muon", Put("Particle1", "particle_type", "muon")>>, <<"particle ELECTRON", Put("Particle1", "particle_type", "ELECTRON")>>})
    \cup (IF Sec("Physics") = {} THEN {} ELSE
        {<<"no physics", Drop("Physics")>>, <<"no model", Less("Physics", "radiation_model")>>}
        \cup {<<"model " \o m, Put("Physics", "radiation_model", m)>> : m \in {"QED", "QUANTUM", "none"}})
Harmless ==
    (IF Sec("General") = {} THEN {} ELSE {Put("General", "units", "si"), Put("General", "time_end", "0"), Put("General", "tracking", "true"), Put("General", "comment", "none")})
    \cup (IF Sec("Physics") = {} THEN {} ELSE {Put("Physics", "radiation_model", "classical"), Put("Physics", "radiation_model", "Semiclassical"), Less("Physics", "pair_production")})
    \cup (IF Sec("Field") = {} THEN {} ELSE {Less("Field", "b_field"), Put("Field", "focus", "[1 2 3 4]")})
    \cup (IF Sec("Particle1") = {} THEN {} ELSE {Less("Particle1", "particle_type"), Put("Particle1", "number_particles", "0"), Put("Particle1", "particle_type", "photon"), Drop("Particle1")})
    \cup {Append(file, <<"Notes", <<<<"time_step", "0">>, <<"position", "1 2 3 4">>>>>>)}
Init == file = Good /\ faults = {} /\ changes = 0
Next == /\ changes < Most /\ changes' = changes + 1
        /\ \/ \E f \in Faults : file' = f[2] /\ faults' = faults \cup {f[1]}
           \/ faults = {} /\ \E f \in Harmless : file' = f /\ faults' = faults

Lines ==
    LET RECURSIVE Ls(_)
        Ls(i) == IF i > Len(file) THEN <<>> ELSE <<"[" \o file[i][1] \o "]">> \o [j \in 1..Len(file[i][2]) |-> file[i][2][j][1] \o " = " \o file[i][2][j][2]] \o Ls(i + 1)
    IN  Ls(1)
\* a file is refused exactly when something is wrong with it; a source of no particles cannot make a wrong one
Refused == LET r == TLCEval(Read(Lines)) IN RunFault(r) # "" \/ LateFault(r)
Law == (faults = {} => ~Refused) /\ (Refused \/ faults \subseteq {"particle muon", "particle ELECTRON"} \/ changes > 1)
Single == (changes = 1 /\ faults # {}) => Refused
RECURSIVE Joined(_)
Joined(ls) == IF ls = <<>> THEN "" ELSE Head(ls) \o "\n" \o Joined(Tail(ls))
Report == Say => PrintT(<<"CMD", Joined(Lines)>>)
=============================================================================
