------------------------------ MODULE OutputGen -----------------------------
(***************************************************************************)
(* A program using the output manager: sources one after the other, the     *)
(* events of a source in any order and interleaved (as threads make them),  *)
(* and dumps of single particles and lists in between.  Every behaviour is  *)
(* printed for the real manager to be taken through; the laws say that      *)
(* nothing is lost, repeated or written over whatever the behaviour.        *)
(* Particles are <<population, index, kind, alive>>.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT MaxCalls, Say
VARIABLES st, calls, left, src, given

Pop(n) == CASE n = 1 -> <<<<1, 1, "Electron", TRUE>>>>
            [] n = 2 -> <<<<2, 1, "Photon", FALSE>>, <<2, 2, "Positron", TRUE>>, <<2, 3, "Electron", TRUE>>, <<2, 4, "Photon", TRUE>>, <<2, 5, "Electron", TRUE>>>>
            [] n = 3 -> <<<<3, 1, "Photon", FALSE>>>>
            [] OTHER -> <<<<n, 1, "Photon", TRUE>>, <<n, 2, "Photon", TRUE>>>>
GLiving(p) == p[4]
GKind(p) == p[3]
GTracked(p) == TRUE
GTrackOf(p) == p
INSTANCE Output WITH Living <- GLiving, Kind <- GKind, Tracked <- GTracked, TrackOf <- GTrackOf

ListFor(c) == IF c.o \in {"prim", "final", "track", "list", "single", "props"} THEN Pop(c.l) ELSE <<>>
Do(c) == /\ Len(calls) < MaxCalls
         /\ calls' = Append(calls, c) /\ st' = Apply(st, c, ListFor(c))
\* given: what the program has handed over, by source
Init == st = Opened /\ calls = <<>> /\ left = {} /\ src = [on |-> FALSE, n |-> 0, s |-> FALSE, t |-> FALSE] /\ given = <<>>
Begin == /\ ~src.on
         /\ \E n \in 0..2, s \in BOOLEAN, t \in BOOLEAN :
               /\ s \/ t
               /\ IF given = <<>> THEN TRUE ELSE given[1].t = t           \* tracking is on or off for the whole run
               /\ src' = [on |-> TRUE, n |-> n, s |-> s, t |-> t]
               /\ given' = Append(given, [n |-> n, s |-> s, t |-> t, ev |-> {}])
               /\ left' = (IF s THEN {<<k, o>> : k \in 0..(n - 1), o \in {"prim", "final"}} ELSE {})
                         \cup (IF t THEN {<<k, "track">> : k \in 0..(n - 1)} ELSE {})
               /\ IF s THEN Do([o |-> "begin", k |-> n]) ELSE UNCHANGED <<st, calls>>
\* the population of an event is one of its own
PopOf(k) == ((Len(given) + k) % 4) + 1
Event == /\ src.on
         /\ \E x \in left :
               /\ x[2] = "final" => <<x[1], "prim">> \notin left
               /\ Do([o |-> x[2], k |-> x[1], l |-> PopOf(x[1])])
               /\ left' = left \ {x}
               /\ given' = [given EXCEPT ![Len(given)].ev = @ \cup {<<x[1], x[2], PopOf(x[1])>>}]
         /\ UNCHANGED src
End == /\ src.on /\ left = {} /\ Do([o |-> "flush", s |-> src.s, t |-> src.t])
       /\ src' = [src EXCEPT !.on = FALSE] /\ UNCHANGED <<left, given>>
Dumps(o) == {i \in 1..Len(calls) : calls[i].o = o}
Dump == /\ ~src.on
        /\ Cardinality(Dumps("single")) + Cardinality(Dumps("list")) + Cardinality(Dumps("props")) < 2
        /\ \/ Do([o |-> "single", name |-> "s" \o ToString(Len(calls)), l |-> 2, i |-> 3])
           \/ Do([o |-> "list", name |-> "l" \o ToString(Len(calls)), l |-> 4])
           \/ Do([o |-> "props", name |-> "p" \o ToString(Len(calls)), list |-> "beam", l |-> 2])
        /\ UNCHANGED <<left, src, given>>
Next == Begin \/ Event \/ End \/ Dump

\* --------------------------------------------------------------- the laws
Whole == ~src.on
Closed == {i \in 1..Len(given) : i < Len(given) \/ ~src.on}
\* the j-th source with output is the j-th group
OutNo(i) == Cardinality({j \in 1..i : given[j].s})
Tables == \A i \in Closed : given[i].s =>
    LET t == st.file.src[OutNo(i)]
        want(who) == UNION {{<<x[1], Pop(x[3])[j]>> : j \in {m \in 1..Len(Pop(x[3])) : Pop(x[3])[m][3] = who /\ Pop(x[3])[m][4]}} : x \in {y \in given[i].ev : y[2] = "final"}}
        got(q) == {q[j] : j \in 1..Len(q)}
    IN  /\ got(t.ele) = want("Electron") /\ Len(t.ele) = Cardinality(want("Electron"))
        /\ got(t.pos) = want("Positron") /\ Len(t.pos) = Cardinality(want("Positron"))
        /\ got(t.pho) = want("Photon") /\ Len(t.pho) = Cardinality(want("Photon"))
        /\ Len(t.prim) = given[i].n /\ \A k \in 1..Len(t.prim) : t.prim[k][1] = k - 1
SourcesLaw == Len(st.file.src) = Cardinality({i \in Closed : given[i].s})
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + Sum(S \ {x})
TracksLaw == Whole => Len(st.file.tracks) = Sum({<<i, Sum({<<x, Len(Pop(x[3]))>> : x \in {y \in given[i].ev : y[2] = "track"}})>> : i \in Closed})
\* no data set is written over another one
PathsLaw == LET s == Sets(st.file) IN \A a, b \in s : a[1] = b[1] => a = b
CountLaw == Cardinality(Sets(st.file)) >= Cardinality({i \in Closed : given[i].s}) + 4 * Len(st.file.tracks)
Report == Say /\ Whole /\ Len(calls) >= MaxCalls - 3 => PrintT(<<"CMD", ToString(calls)>>)
=============================================================================
