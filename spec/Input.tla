------------------------------- MODULE Input --------------------------------
(***************************************************************************)
(* What an input file means: the settings of the simulation, in its units,  *)
(* with their defaults; and which files are refused.  ref are the reference *)
(* units (checked on their own).                                           *)
(***************************************************************************)
EXTENDS InputFile, Vec

Txt(r, sec, key, d) == AsText(Text(r, sec, key), d)
Num(r, sec, key, d) == AsReal(Text(r, sec, key), d)
Cnt(r, sec, key, d) == AsInt(Text(r, sec, key), d)
Flag(r, sec, key, d) == AsBool(Text(r, sec, key), d)
Vec3(r, sec, key, d) == AsVec(Text(r, sec, key), d)
In(v, ref) == RDiv(v, ref)
VIn(v, ref) == VDivS(v, ref)
O3 == <<0, 0, 0>>
Z3 == <<0, 0, 1>>

General(r, ref) ==
    [units |-> Txt(r, "general", "units", "None"), dt |-> In(Num(r, "general", "time_step", 0), ref.time), end |-> In(Num(r, "general", "time_end", 0), ref.time),
     file |-> Txt(r, "general", "file_name", "out.h5"), track |-> Flag(r, "general", "tracking", FALSE)]

FieldKinds == {"static", "plane", "gaussian", "focusing"}
FieldKind(r) == Txt(r, "field", "field_type", "")
Laser(r, ref) == [max |-> In(Num(r, "field", "e_max", 0), ref.efield), lam |-> In(Num(r, "field", "wavelength", 1), ref.length),
                  pol |-> Num(r, "field", "polerisation", 0)]
Field(r, ref) ==
    LET k == FieldKind(r)
    IN  IF ~HasSection(r, "field") THEN [kind |-> ""]
        ELSE CASE k = "static" -> [kind |-> k, e |-> VIn(Vec3(r, "field", "e_field", O3), ref.efield), b |-> VIn(Vec3(r, "field", "b_field", O3), ref.bfield)]
               [] k = "plane" -> [kind |-> k, dir |-> Vec3(r, "field", "direction", Z3)] @@ Laser(r, ref)
               [] OTHER -> [kind |-> k, tau |-> In(Num(r, "field", "duration", 1), ref.time), waist |-> In(Num(r, "field", "waist", 1), ref.length),
                            start |-> VIn(Vec3(r, "field", "start", O3), ref.length), focus |-> VIn(Vec3(r, "field", "focus", O3), ref.length)] @@ Laser(r, ref)

Physics(r, ref) ==
    [model |-> Txt(r, "physics", "radiation_model", ""), emin |-> In(Num(r, "physics", "min_energy", 0), ref.energy),
     frac |-> Num(r, "physics", "sample_fraction", 1), pair |-> Flag(r, "physics", "pair_production", FALSE)]

Source(r, ref, i) ==
    LET s == "particle" \o ToString(i)
    IN  [num |-> Cnt(r, s, "number_particles", 1), name |-> Txt(r, s, "name", "Particle" \o ToString(i)), who |-> Txt(r, s, "particle_type", "Electron"),
         distro |-> Txt(r, s, "energy_distribution", "mono"), x |-> VIn(Vec3(r, s, "position", O3), ref.length), dir |-> Vec3(r, s, "direction", Z3),
         e |-> In(Num(r, s, "energy_mean", 0), ref.energy), esig |-> In(Num(r, s, "energy_sig", 0), ref.energy),
         radius |-> In(Num(r, s, "radius", 0), ref.length), div |-> Num(r, s, "divergence", 0), tau |-> In(Num(r, s, "duration", 0), ref.time),
         out |-> Flag(r, s, "output", FALSE)]
Histogram(r, ref, i) ==
    LET s == "histogram" \o ToString(i)
    IN  [name |-> Txt(r, s, "name", "Histogram" \o ToString(i)), who |-> Txt(r, s, "particle", ""), what |-> Txt(r, s, "type", ""),
         time |-> In(Num(r, s, "time", 0), ref.time), bins |-> Cnt(r, s, "bins", 1), lo |-> Num(r, s, "min_bin", 0), hi |-> Num(r, s, "max_bin", 1)]
\* numbered sections count up to the first one that is missing
RECURSIVE Numbered(_, _, _)
Numbered(r, what, i) == IF HasSection(r, what \o ToString(i)) THEN Numbered(r, what, i + 1) ELSE i - 1

Settings(r, ref) ==
    [general |-> General(r, ref), field |-> Field(r, ref), physics |-> Physics(r, ref),
     src |-> [i \in 1..Numbered(r, "particle", 1) |-> Source(r, ref, i)],
     hist |-> [i \in 1..Numbered(r, "histogram", 1) |-> Histogram(r, ref, i)]]

\* ---------------------------------------------------------------- refusals
KnownUnits == {"SI", "si"}
Models == {"Classical", "classical", "Semiclassical", "semiclassical", "Quantum", "quantum"}
Species == {"Electron", "electron", "Positron", "positron", "Photon", "photon"}
TooLong(r, sec, key) == Len(Numbers(Text(r, sec, key), 1)) > 3
\* vectors that the kind of field has
FieldVectors(r) == CASE FieldKind(r) = "static" -> {"e_field", "b_field"} [] FieldKind(r) = "plane" -> {"direction"} [] OTHER -> {"start", "focus"}
FileFault(r) ==
    IF ~HasSection(r, "general") THEN "no general section"
    ELSE IF ~Has(r, "general", "time_step") THEN "no time step"
    ELSE IF ~Has(r, "general", "time_end") THEN "no time end"
    ELSE IF ~Has(r, "general", "units") THEN "no units"
    ELSE IF Txt(r, "general", "units", "None") \notin KnownUnits THEN "unknown units"
    ELSE IF ~RLt(0, Num(r, "general", "time_step", 0)) THEN "time step not positive"
    ELSE IF HasSection(r, "field") /\ FieldKind(r) \notin FieldKinds THEN "unknown field"
    ELSE IF HasSection(r, "field") /\ \E k \in FieldVectors(r) : TooLong(r, "field", k) THEN "field vector too long"
    ELSE IF \E i \in 1..Numbered(r, "particle", 1) : \E k \in {"position", "direction"} : TooLong(r, "particle" \o ToString(i), k) THEN "source vector too long"
    ELSE IF \E i \in 1..Numbered(r, "particle", 1) : Cnt(r, "particle" \o ToString(i), "number_particles", 1) < 0 THEN "negative number of particles"
    ELSE IF \E i \in 1..Numbered(r, "histogram", 1) : Cnt(r, "histogram" \o ToString(i), "bins", 1) < 0 THEN "negative number of bins"
    ELSE ""
\* the program cannot run everything that it can read
RunFault(r) ==
    IF FileFault(r) # "" THEN FileFault(r)
    ELSE IF ~HasSection(r, "field") THEN "no field"
    ELSE IF Txt(r, "physics", "radiation_model", "") \notin Models THEN "unknown model"
    ELSE ""
\* found when the first particle is made
LateFault(r) == \E i \in 1..Numbered(r, "particle", 1) :
    Cnt(r, "particle" \o ToString(i), "number_particles", 1) > 0 /\ Txt(r, "particle" \o ToString(i), "particle_type", "Electron") \notin Species
=============================================================================
