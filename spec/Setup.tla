------------------------------- MODULE Setup --------------------------------
(***************************************************************************)
(* From the settings of a run, which are in SI units, to the quantities of  *)
(* the simulation.  e.ref are the reference units (checked on their own).   *)
(***************************************************************************)
EXTENDS Vec
LOCAL INSTANCE Sequences
LOCAL INSTANCE Integers

FieldOf(e) ==
    LET f == e.field  L(v) == VDivS(v, e.ref.length)  len(a) == RDiv(a, e.ref.length)
    IN  CASE f.kind = "static" -> [kind |-> "static", e |-> VDivS(f.e, e.ref.efield), b |-> VDivS(f.b, e.ref.bfield)]
          [] f.kind = "plane" -> [kind |-> "plane", max |-> RDiv(f.max, e.ref.efield), lam |-> len(f.lam), pol |-> f.pol, dir |-> f.dir]
          [] OTHER -> [kind |-> f.kind, max |-> RDiv(f.max, e.ref.efield), lam |-> len(f.lam), tau |-> RDiv(f.tau, e.ref.time),
                       waist |-> len(f.waist), pol |-> f.pol, start |-> L(f.start), focus |-> L(f.focus)]
\* a run with everything in the simulation's units
RunOf(e, f) ==
    [dt |-> RDiv(e.dt, e.ref.time), end |-> RDiv(e.end, e.ref.time), field |-> f, model |-> e.model, pair |-> e.pair,
     track |-> e.track, frac |-> e.frac, emin |-> RDiv(e.emin, e.ref.energy), u |-> e.u,
     src |-> [s \in 1..Len(e.src) |-> [who |-> e.src[s].who, num |-> e.src[s].num, out |-> e.src[s].out, exact |-> e.src[s].exact,
                                       e |-> RDiv(e.src[s].e, e.ref.energy), x |-> VDivS(e.src[s].x, e.ref.length), dir |-> e.src[s].dir]],
     hist |-> [h \in 1..Len(e.hist) |-> [name |-> e.hist[h].name, who |-> e.hist[h].who, what |-> e.hist[h].what,
                                         time |-> RDiv(e.hist[h].time, e.ref.time), lo |-> e.hist[h].lo, hi |-> e.hist[h].hi, bins |-> e.hist[h].bins]]]
=============================================================================
