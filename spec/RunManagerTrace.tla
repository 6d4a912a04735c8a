-------------------------- MODULE RunManagerTrace ---------------------------
(***************************************************************************)
(* Sessions with the real run manager.  A session is a sequence of calls to *)
(* one or more managers; each call has what it was given (in SI units),     *)
(* whether it said that something is wrong (on the error stream or by an    *)
(* exception), and after runs and reads the four result arrays.            *)
(***************************************************************************)
EXTENDS SourceTrace, Setup, Bags, Events, FiniteSets

RPositive(dt) == RLt(0, dt)
RBetween(v) == RLe(0, v) /\ RLe(v, 1)
INSTANCE RunManager WITH Positive <- RPositive, Between01 <- RBetween, Whole <- 1
Ref == ndJsonDeserialize(IOEnv.REF)[1]

\* ------------------------------------------------------------ the arrays
\* a: [dims, data]; rows in the simulation's units
Shaped(a, w) == Len(a.dims) = 2 /\ a.dims[2] = w /\ Len(a.data) = a.dims[1] * w
RowOf(a, w, i) == LET o == w * (i - 1) IN
    [p |-> VDivS(<<a.data[o+1], a.data[o+2], a.data[o+3]>>, Ref.momentum), x |-> VDivS(<<a.data[o+4], a.data[o+5], a.data[o+6]>>, Ref.length),
     w |-> IF w = 7 THEN a.data[o+7] ELSE 1]
Rows(a, w) == TLCEval([i \in 1..a.dims[1] |-> RowOf(a, w, i)])
Shapes(r) == Shaped(r.input, 6) /\ Shaped(r.electrons, 7) /\ Shaped(r.positrons, 7) /\ Shaped(r.photons, 7)
Empty(r) == Shapes(r) /\ r.input.dims[1] = 0 /\ r.electrons.dims[1] = 0 /\ r.positrons.dims[1] = 0 /\ r.photons.dims[1] = 0

\* ------------------------------------------- the settings of a run, in units
FullName(n) == CASE n \in {"electron", "Electron"} -> "Electron" [] n \in {"positron", "Positron"} -> "Positron" [] OTHER -> "Photon"
ModelName(n) == CASE n \in {"Classical", "classical"} -> "Classical" [] n \in {"Semiclassical", "semiclassical"} -> "Semiclassical" [] OTHER -> "Quantum"
FieldKind(n) == IF n \in {"gaussian", "Gaussian"} THEN "gaussian" ELSE "focusing"
SetField(v) == FieldOf([ref |-> Ref, field |-> [kind |-> FieldKind(v.name), max |-> v.max, lam |-> v.lam, tau |-> v.tau, waist |-> v.waist,
                                                pol |-> v.pol, start |-> v.start, focus |-> v.focus]])
RunSet(set, f, u) ==
    [dt |-> RDiv(set.time.dt, Ref.time), end |-> RDiv(set.time.end, Ref.time), field |-> f, model |-> ModelName(set.model.name),
     pair |-> set.pair, frac |-> set.frac, emin |-> RDec("0"), track |-> FALSE, u |-> u]
Wanted(set, u) == LET s == set.source IN
    Primary([who |-> FullName(s.name), e |-> RDiv(s.e1, Ref.energy), x |-> VDivS(s.x, Ref.length), dir |-> s.dir], FALSE, u)
\* nothing about the beam is random
ExactSource(s) == /\ \/ s.distro \in {"mono", "Mono"} \/ (s.distro \in {"gaussian", "Gaussian"} /\ REq(s.e2, 0))
                  /\ REq(s.radius, 0) /\ REq(s.tau, 0) /\ REq(s.div, 0)
Near(a, b, scale) == VClose(a, b, RDec("2e-8"), RMul(RDec("1e-9"), scale))
RowOk(c, w, g) == Near(g.p, w.p, 1) /\ Near(g.x, w.x, c.dt) /\ RClose(g.w, w.w, RDec("2e-8"), 0)
Bunch(c, who, ends, a) == Matches(LAMBDA w, g : RowOk(c, w, g), SelectSeq(ends, LAMBDA x : x.who = who), Rows(a, 7))
Outcome(c, prims, r) ==
    LET ends == TLCEval(AllSurvivors(c, prims))
    IN  Bunch(c, "Electron", ends, r.electrons) /\ Bunch(c, "Positron", ends, r.positrons) /\ Bunch(c, "Photon", ends, r.photons)
\* the arrays r are those of a run with these settings
RunBroken(set, n, r, u) ==
    IF ~Shapes(r) THEN "shapes of the arrays"
    ELSE IF r.input.dims[1] # n THEN "one input row per event"
    ELSE LET in == Rows(r.input, 6)  w == Wanted(set, u)  fs == Readings(SetField(set.field))
             exact == ExactSource(set.source)
             prims == [i \in 1..n |-> IF exact THEN w ELSE Made(w.who, in[i].x, in[i].p, 1, RDec("0"), FALSE, u)]
             c(f) == RunSet(set, f, u)
         IN  IF exact /\ \E i \in 1..n : ~RowOk(c(0), w, in[i]) THEN "the input rows"
             ELSE IF \E f \in fs : Outcome(TLCEval(c(f)), prims, r) THEN "" ELSE "the rows of survivors"
\* random draws: the beam as a sample, and conservation
Beam(s, n, in) ==
    [type |-> s.name, distro |-> s.distro, num |-> n, e1 |-> RDiv(s.e1, Ref.energy), e2 |-> RDiv(s.e2, Ref.energy), dpos |-> RDiv(s.radius, Ref.length),
     dtau |-> RDiv(s.tau, Ref.time), ddir |-> s.div, pos |-> VDivS(s.x, Ref.length), dir |-> s.dir,
     en |-> TLCEval([i \in 1..n |-> EnergyOf(MassOf(FullName(s.name)), in[i].p)]),
     p |-> TLCEval([i \in 1..n |-> in[i].p]), x |-> TLCEval([i \in 1..n |-> in[i].x])]
Sum(a, k) == RSum([i \in 1..a.dims[1] |-> a.data[7 * (i - 1) + k]])
SampleBroken(set, n, r) ==
    IF ~Shapes(r) THEN "shapes of the arrays"
    ELSE IF r.input.dims[1] # n THEN "one input row per event"
    ELSE LET s == set.source  who == FullName(s.name)  ele == r.electrons.dims[1]  pos == r.positrons.dims[1]
             b == TLCEval(Beam(s, n, Rows(r.input, 6)))
         IN  FirstBroken(<<
               <<"charge and lepton number", ele - pos = (IF who = "Electron" THEN n ELSE IF who = "Positron" THEN 0 - n ELSE 0)>>,
               <<"no pairs without pair creation", ~set.pair => (IF who = "Electron" THEN pos = 0 ELSE IF who = "Positron" THEN ele = 0 ELSE ele = 0 /\ pos = 0)>>,
               <<"photons survive without pair creation", (~set.pair /\ who = "Photon") => r.photons.dims[1] = n>>,
               <<"weights", \A a \in {r.electrons, r.positrons, r.photons} : \A i \in 1..a.dims[1] : RLt(0, a.data[7 * i]) /\ RFinite(a.data[7 * i])>>,
               <<"energy distribution", EnergySpread(b)>>, <<"place", Placed(b)>>, <<"direction", Headed(b)>>,
               <<"independent draws", n > 100 => Independent(b)>>,
               <<"own draw", Distinct(b)>> >>)

\* -------------------------------------------------------------- sessions
\* per manager: its state and the arrays it holds
Fresh == [st |-> New, held |-> <<>>]
SameArray(a, b) == a.dims = b.dims /\ a.data = b.data
SameResults(a, b) == SameArray(a.input, b.input) /\ SameArray(a.electrons, b.electrons) /\ SameArray(a.positrons, b.positrons) /\ SameArray(a.photons, b.photons)
Holds(m, r) == IF m.held = <<>> THEN Empty(r) ELSE SameResults(m.held[1], r)
CallBroken(e, m, c) ==
    IF c.said # InError(m.st, c, e.omp) THEN (IF c.said THEN "reports an error where there is none" ELSE "reports errors") \o " (" \o c.c \o ")"
    ELSE CASE c.c = "read" -> IF Holds(m, c.res) THEN "" ELSE "results stay as they were"
           [] c.c = "run" -> IF ~Ready(m.st, c, e.omp) THEN (IF Holds(m, c.res) THEN "" ELSE "a refused run leaves the results")
                             ELSE IF e.random THEN SampleBroken(Settings(m.st), c.events, c.res)
                             ELSE RunBroken(Settings(m.st), c.events, c.res, e.u)
           [] OTHER -> ""
RECURSIVE Follow(_, _, _)
Follow(e, i, ms) ==
    IF i > Len(e.calls) THEN (IF e.kept THEN "" ELSE "arrays once read do not change")
    ELSE LET c == e.calls[i]  m == ms[c.m]  b == CallBroken(e, m, c)
         IN  IF b # "" THEN b
             ELSE Follow(e, i + 1, TLCEval([ms EXCEPT ![c.m] = [st |-> Apply(m.st, c, e.omp),
                                       held |-> IF c.c = "run" /\ Ready(m.st, c, e.omp) THEN <<c.res>> ELSE m.held]]))
ManagerVerdict(e) ==
    CASE e.op = "manager" -> IF e.sig # 0 \/ e.exit # 0 THEN "the session ends the interpreter"
                             ELSE IF Len(e.calls) # e.made THEN "a call does not return"
                             ELSE Follow(e, 1, [k \in 1..3 |-> Fresh])
      [] OTHER -> "unexpected event " \o e.op
=============================================================================
