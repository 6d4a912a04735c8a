------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* The output file and its manager.  A state is                             *)
(*   file     what has been written                                        *)
(*   prim, final   of the source being run: per event its first particle    *)
(*            and its survivors                                            *)
(*   pend     tracks that have not been written yet                         *)
(*   refused  the last call was refused; nothing follows                    *)
(* Calls are records with the name o.  What particles are is up to the      *)
(* module that instantiates this one.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Living(_), Kind(_), Tracked(_), TrackOf(_)

NoFile == [src |-> <<>>, tracks |-> <<>>, tgroup |-> FALSE, single |-> <<>>, lists |-> <<>>, props |-> <<>>, hists |-> <<>>, fields |-> <<>>]
Opened == [file |-> NoFile, prim |-> <<>>, final |-> <<>>, pend |-> <<>>, refused |-> FALSE]

Rows(s, who) ==     \* of all events in order, <<event, particle>>
    LET RECURSIVE From(_)
        From(k) == IF k > Len(s.final) THEN <<>>
                   ELSE LET mine == SelectSeq(s.final[k], LAMBDA p : Kind(p) = who)
                        IN  [i \in 1..Len(mine) |-> <<k - 1, mine[i]>>] \o From(k + 1)
    IN  From(1)
Table(s) == [prim |-> [k \in 1..Len(s.prim) |-> <<k - 1, s.prim[k]>>], ele |-> Rows(s, "Electron"), pos |-> Rows(s, "Positron"), pho |-> Rows(s, "Photon")]

\* ps is the particle list the call c is about
Apply(s, c, ps) ==
    CASE c.o = "begin" -> [s EXCEPT !.prim = [k \in 1..c.k |-> <<>>], !.final = [k \in 1..c.k |-> <<>>]]
      [] c.o = "prim" -> [s EXCEPT !.prim[c.k + 1] = ps[1]]
      [] c.o = "final" -> [s EXCEPT !.final[c.k + 1] = SelectSeq(ps, Living)]
      [] c.o = "track" -> [s EXCEPT !.pend = @ \o ps]
      [] c.o = "flush" ->
            [s EXCEPT !.file.src = IF c.s THEN Append(@, Table(s)) ELSE @,
                      !.file.tracks = IF c.t THEN @ \o [i \in 1..Len(s.pend) |-> TrackOf(s.pend[i])] ELSE @,
                      !.file.tgroup = @ \/ c.t,
                      !.pend = IF c.t THEN <<>> ELSE @]
      [] c.o = "single" -> IF Tracked(ps[c.i]) THEN [s EXCEPT !.file.single = Append(@, <<c.name, TrackOf(ps[c.i])>>)] ELSE [s EXCEPT !.refused = TRUE]
      [] c.o = "list" -> IF \A i \in 1..Len(ps) : Tracked(ps[i])
                         THEN [s EXCEPT !.file.lists = Append(@, <<c.name, [i \in 1..Len(ps) |-> TrackOf(ps[i])]>>)]
                         ELSE [s EXCEPT !.refused = TRUE]
      [] c.o = "props" -> [s EXCEPT !.file.props = Append(@, <<c.list, c.name, ps>>)]
      [] c.o = "hist" -> [s EXCEPT !.file.hists = Append(@, c)]
      [] c.o = "field" -> [s EXCEPT !.file.fields = Append(@, c)]
RECURSIVE Run(_, _, _)
Run(ListOf(_), s, cs) == IF cs = <<>> \/ s.refused THEN s ELSE Run(ListOf, TLCEval(Apply(s, Head(cs), ListOf(Head(cs)))), Tail(cs))

\* ------------------------------------------------------ layout of the file
SourceName(i) == "Particles/ParticleSource" \o (IF i = 1 THEN "" ELSE ToString(i))
TrackSets(g, t) == {<<g \o "/Position", "xs", t>>, <<g \o "/Momentum", "ps", t>>, <<g \o "/Time", "ts", t>>, <<g \o "/Gamma", "gs", t>>}
TrackName(i) == "Particles/ParticleTrack/Event" \o ToString(i - 1)
\* all data sets, as path, sort and content
Sets(f) ==
    UNION ({ {<<SourceName(i) \o "/Primary", "table", f.src[i].prim>>}
             \cup (IF f.src[i].ele = <<>> THEN {} ELSE {<<SourceName(i) \o "/Electrons", "table", f.src[i].ele>>})
             \cup (IF f.src[i].pos = <<>> THEN {} ELSE {<<SourceName(i) \o "/Positrons", "table", f.src[i].pos>>})
             \cup (IF f.src[i].pho = <<>> THEN {} ELSE {<<SourceName(i) \o "/Photons", "table", f.src[i].pho>>}) : i \in DOMAIN f.src }
        \cup { TrackSets(TrackName(i), f.tracks[i]) : i \in DOMAIN f.tracks }
        \cup { TrackSets("Particles/Single/" \o f.single[i][1], f.single[i][2]) : i \in DOMAIN f.single }
        \cup { UNION { TrackSets("Particles/ParticleList/" \o f.lists[i][1] \o "/" \o ToString(j - 1), f.lists[i][2][j]) : j \in DOMAIN f.lists[i][2] }
               : i \in DOMAIN f.lists }
        \cup { {<<"Particles/ParticleList/" \o f.props[i][1] \o "/" \o f.props[i][2], "props", f.props[i][3]>>} : i \in DOMAIN f.props }
        \cup { {<<"Histograms/" \o f.hists[i].name \o "/BinCentres", "centres", f.hists[i]>>,
                <<"Histograms/" \o f.hists[i].name \o "/BinValues", "values", f.hists[i]>>} : i \in DOMAIN f.hists }
        \cup { UNION { UNION { {<<"Fields/" \o ToString(t - 1) \o "/E" \o ToString(d - 1), "field", <<f.fields[i], t, "e", d>>>>,
                                <<"Fields/" \o ToString(t - 1) \o "/B" \o ToString(d - 1), "field", <<f.fields[i], t, "b", d>>>>} : d \in 1..3 }
                       : t \in DOMAIN f.fields[i].ts } : i \in DOMAIN f.fields })
Groups(f) ==
    {"Particles", "Fields", "Histograms"}
    \cup {SourceName(i) : i \in DOMAIN f.src}
    \cup (IF f.tgroup THEN {"Particles/ParticleTrack"} ELSE {}) \cup {TrackName(i) : i \in DOMAIN f.tracks}
    \cup (IF f.single = <<>> THEN {} ELSE {"Particles/Single"}) \cup {"Particles/Single/" \o f.single[i][1] : i \in DOMAIN f.single}
    \cup (IF f.lists = <<>> /\ f.props = <<>> THEN {} ELSE {"Particles/ParticleList"})
    \cup {"Particles/ParticleList/" \o f.lists[i][1] : i \in DOMAIN f.lists}
    \cup UNION {{"Particles/ParticleList/" \o f.lists[i][1] \o "/" \o ToString(j - 1) : j \in DOMAIN f.lists[i][2]} : i \in DOMAIN f.lists}
    \cup {"Particles/ParticleList/" \o f.props[i][1] : i \in DOMAIN f.props}
    \cup {"Histograms/" \o f.hists[i].name : i \in DOMAIN f.hists}
    \cup UNION {{"Fields/" \o ToString(t - 1) : t \in DOMAIN f.fields[i].ts} : i \in DOMAIN f.fields}
=============================================================================
