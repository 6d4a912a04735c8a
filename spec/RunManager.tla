----------------------------- MODULE RunManager -----------------------------
(***************************************************************************)
(* The run manager of the Python module.  A state is                        *)
(*   time     the last time step and end                                   *)
(*   field, model, source   the last that was known, and on: whether the    *)
(*            last one set was                                             *)
(*   frac, pair             sample fraction and pair creation               *)
(*   last     the run whose results are held: the settings it was made      *)
(*            with and its number of events, or NoRun                      *)
(* Calls are records with the name c.  omp says that threads are available. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Positive(_),          \* a time step is more than nothing
          Between01(_),         \* a sample fraction is one
          Whole                   \* the sample fraction to begin with

FieldNames == {"gaussian", "Gaussian", "focusing", "Focusing"}
ModelNames == {"Classical", "classical", "Semiclassical", "semiclassical", "Quantum", "quantum"}
SpeciesNames == {"Electron", "electron", "Positron", "positron", "Photon", "photon"}
NoRun == [events |-> 0, set |-> <<>>]
Unset == [on |-> FALSE, v |-> <<>>]
New == [time |-> Unset, field |-> Unset, model |-> Unset, source |-> Unset, frac |-> Whole, pair |-> FALSE, last |-> NoRun]
Set(known, c) == [on |-> known, v |-> IF known THEN c ELSE <<>>]
Settings(s) == [time |-> s.time.v, field |-> s.field.v, model |-> s.model.v, source |-> s.source.v, frac |-> s.frac, pair |-> s.pair]

Ready(s, c, omp) ==
    /\ s.time.on /\ s.field.on /\ s.model.on /\ s.source.on
    /\ c.events >= 0 /\ c.threads >= 1 /\ (omp \/ c.threads = 1)
Apply(s, c, omp) ==
    CASE c.c = "time" -> [s EXCEPT !.time = Set(Positive(c.dt), c)]
      [] c.c = "field" -> [s EXCEPT !.field = Set(c.name \in FieldNames, c)]
      [] c.c = "physics" -> [s EXCEPT !.model = Set(c.name \in ModelNames, c)]
      [] c.c = "source" -> [s EXCEPT !.source = Set(c.name \in SpeciesNames, c)]
      [] c.c = "fraction" -> IF Between01(c.v) THEN [s EXCEPT !.frac = c.v] ELSE s
      [] c.c = "pair" -> [s EXCEPT !.pair = c.use]
      [] c.c = "run" -> IF Ready(s, c, omp) THEN [s EXCEPT !.last = [events |-> c.events, set |-> Settings(s)]] ELSE s
      [] OTHER -> s
\* calls that are in error say so; nobody else does
InError(s, c, omp) ==
    CASE c.c = "field" -> c.name \notin FieldNames
      [] c.c = "physics" -> c.name \notin ModelNames
      [] c.c = "source" -> c.name \notin SpeciesNames
      [] c.c = "fraction" -> ~Between01(c.v)
      [] c.c = "run" -> ~Ready(s, c, omp)
      [] OTHER -> FALSE
=============================================================================
