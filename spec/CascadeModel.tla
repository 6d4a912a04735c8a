---------------------------- MODULE CascadeModel ----------------------------
(***************************************************************************)
(* The machine with particles whose energies and clocks are small whole     *)
(* numbers and that may radiate and make pairs at will: every history of    *)
(* every small run.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES run, pc, src, evt, time, parts, todo, fired, counts, tables, tracks

New(who, e, birth, step) == [who |-> who, e |-> e, alive |-> TRUE, birth |-> birth, steps |-> 0, t |-> birth, made |-> step, hist |-> <<>>]
MSources(r) == r.src
MPrimaries(r, s, i) == {New(r.src[s].who, r.src[s].e, 0, 0)}
MMove(r, p) == [p EXCEPT !.steps = @ + 1, !.t = @ + r.dt, !.hist = Append(@, <<p.t + r.dt, p.e>>)]
Lepton(p) == p.who # "Photon"
Nothing(p) == [self |-> p, born |-> <<>>, lost |-> 0]
Radiates(r, p) == {[self |-> [p EXCEPT !.e = @ - g, !.hist = Append(@, <<p.t, p.e - g>>)],
                    born |-> IF keep THEN <<New("Photon", g, p.t, p.steps)>> ELSE <<>>, lost |-> IF keep THEN 0 ELSE g]
                   : g \in 1..(p.e - 1), keep \in (IF r.emits = "all" THEN {TRUE} ELSE {TRUE, FALSE})}
Pairs(p) == {[self |-> [p EXCEPT !.alive = FALSE],
              born |-> <<New("Positron", a, p.t, p.steps), New("Electron", p.e - a, p.t, p.steps)>>, lost |-> 0]
             : a \in 1..(p.e - 1)}
MReact(r, p) == {Nothing(p)} \cup (IF Lepton(p) THEN (IF r.emits = "none" THEN {} ELSE Radiates(r, p))
                                   ELSE IF r.pair /\ p.e > 2 THEN Pairs(p) ELSE {})
MZero == 0
MTick(r, t) == t + r.dt
MRunning(r, t) == t < r.end
MHists(r) == r.hist
MDue(r, h, t) == t >= h.time
\* bins are energies 1..bins
MBin(r, h, p) == IF p.who = h.who /\ p.e <= h.bins THEN p.e ELSE 0

INSTANCE Cascade WITH Sources <- MSources, Primaries <- MPrimaries, Move <- MMove, React <- MReact, Zero <- MZero,
    Tick <- MTick, Running <- MRunning, Hists <- MHists, Due <- MDue, BinOf <- MBin

Whos == {"Electron", "Positron", "Photon"}
H(w, t) == [who |-> w, time |-> t, bins |-> 2]
Plans == {<<>>, <<H("Electron", 0), H("Photon", 0)>>, <<H("Photon", 1), H("Electron", 3)>>, <<H("Electron", 9)>>}
Src(w, e, n) == [who |-> w, e |-> e, num |-> n, out |-> TRUE]
One == {<<Src(w, e, 1)>> : w \in Whos, e \in 3..4}
Two == {<<Src("Electron", 2, 2), Src("Photon", 3, 1)>>, <<Src("Electron", 2, 0), Src("Positron", 2, 1)>>, <<>>}
Runs == [src : One, dt : {2}, end : {4}, emits : {"all", "some"}, pair : BOOLEAN, hist : Plans]
    \cup [src : One, dt : {2, 5}, end : {0, 3}, emits : {"none", "all"}, pair : BOOLEAN, hist : Plans]
    \cup [src : Two, dt : {1}, end : {2}, emits : {"all"}, pair : {TRUE}, hist : Plans]
Init == \E r \in Runs : Start(r)
Next == NextFine

\* ------------------------------------------------------------------- laws
Charge(w) == CASE w = "Electron" -> -1 [] w = "Positron" -> 1 [] OTHER -> 0
RECURSIVE Sum(_, _)
Sum(f(_), ps) == IF ps = <<>> THEN 0 ELSE f(Head(ps)) + Sum(f, Tail(ps))
ChargeNow(p) == IF p.alive THEN Charge(p.who) ELSE 0
Primary == IF src <= Len(run.src) THEN run.src[src] ELSE Src("Photon", 0, 0)
InEvent == pc \in {"step", "move"}
\* charge minus is electrons minus positrons: lepton number and charge are one law
ChargeLaw == InEvent => Sum(ChargeNow, parts) = Charge(Primary.who)
EnergyNow(p) == IF p.alive THEN p.e ELSE 0
EnergyLaw == InEvent => IF run.emits = "some" THEN Sum(EnergyNow, parts) <= Primary.e ELSE Sum(EnergyNow, parts) = Primary.e
\* steps of the run so far
Done == time \div run.dt
Moved(k) == IF pc = "move" /\ k \notin todo THEN 1 ELSE 0
\* everyone alive has the clock of the run and has taken every step since it was made
ClockLaw == InEvent => \A k \in 1..Len(parts) : parts[k].alive =>
    /\ parts[k].t = time + run.dt * Moved(k)
    /\ parts[k].birth + parts[k].steps * run.dt = parts[k].t
\* one row per step, and one more per recoil; none for who has not moved
TrackLaw == InEvent => \A k \in 1..Len(parts) :
    LET h == parts[k].hist
    IN  /\ Cardinality({h[i][1] : i \in 1..Len(h)}) = parts[k].steps
        /\ \A i \in 1..(Len(h) - 1) : h[i + 1][1] - h[i][1] \in {0, run.dt}
        /\ h # <<>> => h[1][1] = parts[k].birth + run.dt /\ h[Len(h)] = <<parts[k].t, parts[k].e>>
\* the end of an event: the number of steps, the survivors, each histogram filled once
StepsLaw == pc = "next" /\ evt > 0 => time >= run.end /\ (time = 0 \/ time - run.dt < run.end)
TableLaw == pc = "next" => \A s \in 1..Len(run.src) :
    /\ Len(tables[s].primary) = (IF s < src THEN run.src[s].num ELSE IF s = src THEN evt ELSE 0)
    /\ \A i \in 1..Len(tables[s].primary) : tables[s].primary[i].id = i - 1
    /\ \A i \in 1..Len(tables[s].final) : tables[s].final[i].part.alive
    /\ \A i \in 0..(Len(tables[s].primary) - 1) :
          Sum(LAMBDA x : IF x.id = i THEN Charge(x.part.who) ELSE 0, tables[s].final) = Charge(run.src[s].who)
Events == IF pc = "next" THEN Sum(LAMBDA s : Len(s.primary), tables) ELSE 0
RECURSIVE Total(_)
Total(c) == IF c = <<>> THEN 0 ELSE Head(c) + Total(Tail(c))
\* a histogram at time zero sees the primaries only
HistLaw == pc = "next" => \A h \in 1..Len(run.hist) :
    run.hist[h].time = 0 /\ run.end > 0 =>
        Total(counts[h]) = Sum(LAMBDA s : Sum(LAMBDA x : IF MBin(run, run.hist[h], x.part) # 0 THEN 1 ELSE 0, s.primary), tables)
\* a histogram whose time never comes sees the survivors
LateLaw == pc = "next" => \A h \in 1..Len(run.hist) :
    run.hist[h].time >= run.end + run.dt =>
        Total(counts[h]) = Sum(LAMBDA s : Sum(LAMBDA x : IF MBin(run, run.hist[h], x.part) # 0 THEN 1 ELSE 0, s.final), tables)
\* the dead stay as they are; nobody is forgotten in an event
DeadLaw == [][InEvent /\ pc' \in {"step", "move"} =>
                \A k \in 1..Len(parts) : k <= Len(parts') /\ (~parts[k].alive => parts'[k] = parts[k])]_parts
OnceLaw == [][pc = "move" /\ pc' = "move" => \E k \in todo : \A j \in 1..Len(parts) : j # k => parts'[j] = parts[j]]_<<parts, todo>>
Ends == <>(pc = "done")
Spec == Init /\ [][Next]_<<run, pc, src, evt, time, parts, todo, fired, counts, tables, tracks>>
             /\ WF_<<run, pc, src, evt, time, parts, todo, fired, counts, tables, tracks>>(Next)
=============================================================================
