----------------------------- MODULE OutputTrace ----------------------------
(***************************************************************************)
(* Sessions with the real output manager: what it was told, and what the    *)
(* file then holds.  e.groups and e.sets are those of the file.            *)
(***************************************************************************)
EXTENDS Fields, Observed, Numerics, FiniteSets

CLiving(p) == p.alive
CKind(p) == p.who
CTracked(p) == p.trk
CTrackOf(p) == p.h
INSTANCE Output WITH Living <- CLiving, Kind <- CKind, Tracked <- CTracked, TrackOf <- CTrackOf

ListFor(e, c) == IF "l" \in DOMAIN c THEN e.lists[c.l].parts ELSE <<>>
Named(e, c) == IF c.o = "props" THEN [o |-> "props", name |-> c.name, list |-> e.lists[c.l].name, l |-> c.l] ELSE c
Told(e) == [i \in DOMAIN e.calls |-> Named(e, e.calls[i])]
Want(e) == Run(LAMBDA c : ListFor(e, c), Opened, Told(e))

\* ---------------------------------------------------------------- contents
Row8(r) == <<r[1], r[2].e>> \o r[2].p \o r[2].x
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : REq(a[i], b[i])
RowAt(d, w, i) == SubSeq(d, w * (i - 1) + 1, w * i)
\* the same rows in any order
RECURSIVE SameRows(_, _)
SameRows(want, got) ==
    IF want = <<>> THEN got = {}
    ELSE LET c == {g \in got : Same(Head(want), g[2])} IN c # {} /\ SameRows(Tail(want), got \ {CHOOSE g \in c : TRUE})
Flat(vs) == [i \in 1..(3 * Len(vs)) |-> vs[((i - 1) \div 3) + 1][((i - 1) % 3) + 1]]
Scaled(d, want, k) == Len(d) = Len(want) /\ \A i \in 1..Len(d) : RClose(d[i], RMul(want[i], k), RDec("1e-14"), 0)
Centres(h) == [i \in 1..h.bins |-> RAdd(h.lo, RMul(i - 1, RDiv(RSub(h.hi, h.lo), h.bins - 1)))]
FieldPoint(f, t, x) == IF f.kind = "static" THEN [e |-> f.e, b |-> f.b] ELSE FieldAt(f, t, x)

\* ------------------------------------------------------------- histograms
ValueOf(what, p) ==
    CASE what \in {"Energy", "energy"} -> p.e
      [] what \in {"X", "x"} -> p.x[1] [] what \in {"Y", "y"} -> p.x[2] [] what \in {"Z", "z"} -> p.x[3]
      [] what \in {"PX", "px"} -> p.p[1] [] what \in {"PY", "py"} -> p.p[2] [] what \in {"PZ", "pz"} -> p.p[3]
\* the bins v may be counted in; {0} if it is not counted
BinsFor(c, v) ==
    LET n == Len(c)
    IN  IF ~(RLt(c[1], v) /\ RLt(v, c[n])) THEN {0}
        ELSE {i \in 1..n : \A j \in {i - 1, i + 1} \cap (1..n) :
                 RLe(RAbs(RSub(v, c[i])), RAdd(RAbs(RSub(v, c[j])), RMul(RDec("1e-13"), RAdd(RAbs(v), RSub(c[n], c[1])))))}
Counted(c, v, conts) == UNION {{IF b = 0 THEN k ELSE [k EXCEPT ![b] = RAdd(@, 1)] : b \in BinsFor(c, v)} : k \in conts}
RECURSIVE CountAll(_, _, _, _)
CountAll(c, what, ps, conts) == IF ps = <<>> THEN conts ELSE CountAll(c, what, Tail(ps), TLCEval(Counted(c, ValueOf(what, Head(ps)), conts)))
Normal(k) == LET s == RSum(k) IN IF REq(s, 0) THEN k ELSE [i \in DOMAIN k |-> RDiv(k[i], s)]
Zeros(n) == [i \in 1..n |-> RDec("0")]
Plus(a, b) == [i \in DOMAIN a |-> RAdd(a[i], b[i])]
RECURSIVE Contents(_, _, _, _)
Contents(e, h, acts, conts) ==
    IF acts = <<>> THEN conts
    ELSE LET a == Head(acts)  ps == e.lists[a.l].parts  c == TLCEval(Centres(h))
             next == CASE a.o = "app" -> Counted(c, ValueOf(h.what, ps[a.i]), conts)
                       [] a.o = "fill" -> {Normal(k) : k \in CountAll(c, h.what, ps, conts)}
                       [] a.o = "merge" ->
                            IF h.bins = a.bins /\ REq(h.lo, a.lo) /\ REq(h.hi, a.hi)
                            THEN {Plus(k, o) : k \in conts, o \in CountAll(c, h.what, ps, {Zeros(a.bins)})} ELSE conts
         IN  Contents(e, h, Tail(acts), TLCEval(next))
ValuesOk(e, h, d) == \E k \in Contents(e, h, h.acts, {Zeros(h.bins)}) :
                        Len(d) = h.bins /\ \A i \in 1..h.bins : RClose(d[i], k[i], RDec("1e-12"), 0)

\* ------------------------------------------------------------ the data sets
FieldSetOk(g, f, w, s) ==
    LET nx == Len(f.xs)  ny == Len(f.ys)  nz == Len(f.zs)
    IN  /\ s.dims = <<nx, ny, nz>> /\ Len(s.data) = nx * ny * nz
        /\ \A i \in 1..nx, j \in 1..ny, k \in 1..nz :
              LET x == <<f.xs[i], f.ys[j], f.zs[k]>>  F == FieldAt(g, f.ts[w[2]], x)
                  want == IF w[3] = "e" THEN F.e[w[4]] ELSE F.b[w[4]]
              IN  RClose(s.data[((i - 1) * ny + (j - 1)) * nz + k], want, 0, FieldTol(g, f.ts[w[2]], x))
SetOk(e, w, s) ==
    CASE w[2] = "table" -> LET n == Len(w[3])
                           IN  /\ s.dims = <<n, 8>> /\ Len(s.data) = 8 * n
                               /\ SameRows([i \in 1..n |-> Row8(w[3][i])], {<<i, RowAt(s.data, 8, i)>> : i \in 1..n})
      [] w[2] = "props" -> LET n == Len(w[3])
                           IN  /\ s.dims = <<n, 5>> /\ Len(s.data) = 5 * n
                               /\ \A i \in 1..n : Same(RowAt(s.data, 5, i), <<i - 1, w[3][i].e>> \o w[3][i].x)
      [] w[2] = "xs" -> s.dims = <<Len(w[3].x), 3>> /\ Scaled(s.data, Flat(w[3].x), e.length)
      [] w[2] = "ps" -> s.dims = <<Len(w[3].p), 3>> /\ Scaled(s.data, Flat(w[3].p), e.momentum)
      [] w[2] = "ts" -> s.dims = <<Len(w[3].t)>> /\ Scaled(s.data, w[3].t, e.time)
      [] w[2] = "gs" -> s.dims = <<Len(w[3].g)>> /\ Scaled(s.data, w[3].g, 1)
      [] w[2] = "centres" -> /\ s.dims = <<w[3].bins>> /\ Len(s.data) = w[3].bins
                             /\ \A i \in 1..w[3].bins : RClose(s.data[i], Centres(w[3])[i], RDec("1e-12"), RMul(RDec("1e-12"), RSub(w[3].hi, w[3].lo)))
      [] w[2] = "values" -> s.dims = <<w[3].bins>> /\ ValuesOk(e, w[3], s.data)
Find(e, path) == {i \in DOMAIN e.sets : e.sets[i].path = path}
SortOk(e, want, sorts) == \A w \in {v \in want : v[2] \in sorts} : \E i \in Find(e, w[1]) : SetOk(e, w, e.sets[i])
\* a field is one of its readings for the whole dump
FieldsOk(e, want) ==
    \A i \in DOMAIN e.calls : e.calls[i].o = "field" =>
        \E g \in Readings(e.calls[i].f) : \A w \in {v \in want : v[2] = "field" /\ v[3][1] = e.calls[i]} :
            \E j \in Find(e, w[1]) : FieldSetOk(g, w[3][1], w[3], e.sets[j])
GroupSet(e) == {e.groups[i] : i \in DOMAIN e.groups}
Verdict(e) ==
    IF e.op # "session" THEN "unexpected event " \o e.op
    ELSE LET end == TLCEval(Want(e))
         IN  IF end.refused THEN (IF e.status = 1 /\ e.said THEN "" ELSE "tracks of an untracked particle are refused with an error")
             ELSE IF e.status # 0 THEN "the calls succeed"
             ELSE LET want == TLCEval(Sets(end.file))
                  IN  FirstBroken(<<
                        <<"the file can be read", e.open>>,
                        <<"the groups of the file", GroupSet(e) = Groups(end.file)>>,
                        <<"the data sets of the file", {e.sets[i].path : i \in DOMAIN e.sets} = {w[1] : w \in want} /\ Len(e.sets) = Cardinality(want)>>,
                        <<"the event tables", SortOk(e, want, {"table"})>>,
                        <<"the tracks", SortOk(e, want, {"xs", "ps", "ts", "gs"})>>,
                        <<"the particle lists", SortOk(e, want, {"props"})>>,
                        <<"the bin centres", SortOk(e, want, {"centres"})>>,
                        <<"the histogram contents", SortOk(e, want, {"values"})>>,
                        <<"the dumped fields", FieldsOk(e, want)>> >>)
=============================================================================
