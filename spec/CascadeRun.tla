----------------------------- MODULE CascadeRun -----------------------------
(***************************************************************************)
(* Runs of the program compared with the machine: every line of the trace   *)
(* is a run (its settings, and what it wrote to its output file) in which   *)
(* every uniform draw had the same value.  The machine simulates the run;   *)
(* when it is done, what it has in its tables, tracks and histograms must   *)
(* be what the program wrote.  e.judge names the parts that are compared.   *)
(***************************************************************************)
EXTENDS Reactions, Setup, Bags, Numerics, FiniteSets, TLC, Json, IOUtils
VARIABLES run, pc, src, evt, time, parts, todo, fired, counts, tables, tracks, l

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* --------------------------------------------------------- the machine
CSources(r) == r.src
OutIndex(r, s) == Cardinality({k \in 1..s : r.src[k].out})
\* where the source is random its primaries are those that the program lists
Listed(s, k, trk, u) == Made(s.who, <<k[6], k[7], k[8]>>, <<k[3], k[4], k[5]>>, 1, RDec("0"), trk, u)
CPrimaries(r, s, i) == {IF r.src[s].exact THEN Primary(r.src[s], r.track, r.u)
                        ELSE Listed(r.src[s], r.src[s].list[i + 1], r.track, r.u)}
CMove(r, p) == Step(r, p)
CReact(r, p) == {Reaction(r, p)}
CZero == RDec("0")
CTick(r, t) == RAdd(t, r.dt)
CRunning(r, t) == RLt(t, r.end)
CHists(r) == r.hist
CDue(r, h, t) == RLe(h.time, t)
Centres(h) == [i \in 1..h.bins |-> RAdd(h.lo, RMul(i - 1, RDiv(RSub(h.hi, h.lo), h.bins - 1)))]
Lower(w) == CASE w = "Energy" -> "energy" [] w = "X" -> "x" [] w = "Y" -> "y" [] w = "Z" -> "z"
              [] w = "PX" -> "px" [] w = "PY" -> "py" [] w = "PZ" -> "pz" [] OTHER -> w
Quantity(what, p) == CASE Lower(what) = "energy" -> EnergyOf(p.m, p.p)
                       [] Lower(what) = "x" -> p.x[1] [] Lower(what) = "y" -> p.x[2] [] Lower(what) = "z" -> p.x[3]
                       [] Lower(what) = "px" -> p.p[1] [] Lower(what) = "py" -> p.p[2] [] Lower(what) = "pz" -> p.p[3]
CBin(r, h, p) ==
    IF p.who # h.who THEN 0
    ELSE LET v == Quantity(h.what, p)
         IN  IF ~(RLt(h.lo, v) /\ RLt(v, h.hi)) THEN 0
             ELSE LET c == TLCEval(Centres(h))  k == AtOrBelow(c, v)
                  IN  IF k = h.bins \/ (k >= 1 /\ RLe(RSub(v, c[k]), RSub(c[k + 1], v))) THEN k ELSE k + 1
INSTANCE Cascade WITH Sources <- CSources, Primaries <- CPrimaries, Move <- CMove, React <- CReact, Zero <- CZero,
    Tick <- CTick, Running <- CRunning, Hists <- CHists, Due <- CDue, BinOf <- CBin

\* ---------------------------------------------- comparing with the output
Near(a, b, scale) == VClose(a, b, RDec("2e-8"), RMul(RDec("1e-9"), scale))
\* a table row: number, energy, momentum, place
RowOk(r, w, g) ==
    /\ REq(g[1], w.id)
    /\ Near(<<g[3], g[4], g[5]>>, w.part.p, 1)
    /\ RClose(g[2], EnergyOf(w.part.m, w.part.p), RDec("2e-8"), 0)
    /\ Near(<<g[6], g[7], g[8]>>, w.part.x, r.dt)
Of(who, rows) == SelectSeq(rows, LAMBDA x : x.part.who = who)
Outs(r) == {s \in 1..Len(r.src) : r.src[s].out}
Got(e, r, s) == e.out.src[OutIndex(r, s)]
GroupsOk(e, r) == Len(e.out.src) = Cardinality(Outs(r)) /\ e.out.extra = <<>>
PrimariesOk(e, r) == \A s \in Outs(r) : Matches(LAMBDA w, g : RowOk(r, w, g), tables[s].primary, Got(e, r, s).prim)
SurvivorsOk(e, r) == \A s \in Outs(r) :
    /\ Matches(LAMBDA w, g : RowOk(r, w, g), Of("Electron", tables[s].final), Got(e, r, s).ele)
    /\ Matches(LAMBDA w, g : RowOk(r, w, g), Of("Positron", tables[s].final), Got(e, r, s).pos)
    /\ Matches(LAMBDA w, g : RowOk(r, w, g), Of("Photon", tables[s].final), Got(e, r, s).pho)
GammaRow(p, g) == RClose(g, RSqrt(RAdd(1, VMag2(p))), RDec("2e-8"), 0) \/ RClose(g, VMag(p), RDec("2e-8"), 0)
TrackOk(r, w, g) ==
    /\ Len(g.t) = Len(w) /\ Len(g.x) = Len(w) /\ Len(g.p) = Len(w) /\ Len(g.g) = Len(w)
    /\ \A i \in 1..Len(w) : RClose(g.t[i], w[i][1], RDec("1e-12"), 0)
    /\ \A i \in 1..Len(w) : Near(g.x[i], w[i][2], r.dt) /\ Near(g.p[i], w[i][3], 1) /\ GammaRow(g.p[i], g.g[i])
TracksOk(e, r) == IF ~r.track THEN e.out.tracks = <<>> ELSE Matches(LAMBDA w, g : TrackOk(r, w, g), tracks, e.out.tracks)
HistOk(e, r) ==
    /\ Len(e.out.hist) = Len(r.hist)
    /\ \A h \in 1..Len(r.hist) :
          LET g == e.out.hist[h]
          IN  /\ g.name = r.hist[h].name /\ Len(g.v) = r.hist[h].bins
              /\ \A i \in 1..r.hist[h].bins : REq(g.v[i], counts[h][i])
BinsOk(e, r) == \A h \in 1..Len(r.hist) :
    LET g == e.out.hist[h]  c == Centres(r.hist[h])
    IN  Len(g.c) = r.hist[h].bins /\ \A i \in 1..Len(g.c) : RClose(g.c[i], c[i], RDec("1e-12"), RMul(RDec("1e-12"), RSub(r.hist[h].hi, r.hist[h].lo)))

Wants(e, part) == \E i \in 1..Len(e.judge) : e.judge[i] = part
RECURSIVE FirstBroken(_)
FirstBroken(cs) == IF cs = <<>> THEN "" ELSE IF Head(cs)[2] THEN FirstBroken(Tail(cs)) ELSE Head(cs)[1]
Verdict(e, r) == FirstBroken(<<
    <<"the groups of the file", Wants(e, "tables") => GroupsOk(e, r)>>,
    <<"the table of primaries", Wants(e, "tables") => PrimariesOk(e, r)>>,
    <<"the tables of survivors", Wants(e, "tables") => SurvivorsOk(e, r)>>,
    <<"the tracks", Wants(e, "tracks") => TracksOk(e, r)>>,
    <<"the bin centres", Wants(e, "hist") => BinsOk(e, r)>>,
    <<"the histograms", Wants(e, "hist") => HistOk(e, r)>> >>)

Usable(e) == e.out.status = 0 /\ \A s \in 1..Len(e.src) : e.src[s].out =>
                 LET k == Cardinality({j \in 1..s : e.src[j].out}) IN k <= Len(e.out.src) /\ Len(e.out.src[k].prim) = e.src[s].num
Listing(e, r) == [r EXCEPT !.src = [s \in DOMAIN @ |-> [who |-> @[s].who, num |-> @[s].num, out |-> @[s].out, exact |-> @[s].exact, e |-> @[s].e,
                     x |-> @[s].x, dir |-> @[s].dir, list |-> IF @[s].out THEN e.out.src[OutIndex(r, s)].prim ELSE <<>>]]]
Init == /\ l \in 1..Len(Trace)
        /\ IF Usable(Trace[l]) THEN \E f \in Readings(FieldOf(Trace[l])) : Start(Listing(Trace[l], RunOf(Trace[l], f)))
           ELSE /\ PrintT(<<"BAD", l, IF Trace[l].out.status # 0 THEN "the run does not end normally" ELSE "the table of primaries">>)
                /\ run = 0 /\ pc = "lost" /\ src = 0 /\ evt = 0 /\ time = 0 /\ parts = <<>> /\ todo = {} /\ fired = 0 /\ counts = <<>> /\ tables = <<>> /\ tracks = <<>>
Next == pc # "lost" /\ NextCoarse /\ UNCHANGED l
\* always TRUE, but says how runs that are done compare
Conforms == pc = "done" => LET v == Verdict(Trace[l], run)
                           IN  IF v = "" THEN PrintT(<<"DONE", l>>) ELSE PrintT(<<"BAD", l, v>>)
=============================================================================
