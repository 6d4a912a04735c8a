---------------------------- MODULE ThreadsTrace ----------------------------
(***************************************************************************)
(* Runs with random draws on any number of threads.  What an event does is  *)
(* not known, but everything it was and became must be in the output once,  *)
(* and with its own event: charge is conserved in every event, momentum is  *)
(* (for emission in a magnetic field) too, tracks end where survivors are.  *)
(* Every source of these runs has its output on.                            *)
(***************************************************************************)
EXTENDS Reactions, Setup, Bags, Observed, FiniteSets

Got(e, s) == e.out.src[s]
Row(g) == [p |-> <<g[3], g[4], g[5]>>, x |-> <<g[6], g[7], g[8]>>]
Event(rows, i) == SelectSeq(rows, LAMBDA g : REq(g[1], i))
Charge(who) == CASE who = "Electron" -> -1 [] who = "Positron" -> 1 [] OTHER -> 0
Leptons(e) == RSum([s \in 1..Len(e.src) |-> IF e.src[s].who = "Photon" THEN 0 ELSE e.src[s].num])
Idx(r, s) == 0..(r.src[s].num - 1)

Shapes(e) == /\ Len(e.out.src) = Len(e.src) /\ e.out.extra = <<>>
             /\ \A s \in 1..Len(e.src) : \A rows \in {Got(e, s).prim, Got(e, s).ele, Got(e, s).pos, Got(e, s).pho} : \A i \in 1..Len(rows) : Len(rows[i]) = 8
OncePrimary(e, r) == \A s \in 1..Len(r.src) :
    LET rows == Got(e, s).prim
    IN  Len(rows) = r.src[s].num /\ \A i \in Idx(r, s) : Len(Event(rows, i)) = 1
PrimaryIs(e, r) == \A s \in 1..Len(r.src) :
    LET rows == Got(e, s).prim  w == Primary(r.src[s], FALSE, RDec("0.5"))
    IN  IF r.src[s].exact THEN \A i \in 1..Len(rows) : VClose(Row(rows[i]).p, w.p, RDec("2e-8"), RDec("1e-9")) /\ VClose(Row(rows[i]).x, w.x, RDec("2e-8"), RMul(RDec("1e-9"), r.dt))
        ELSE Cardinality({SubSeq(rows[i], 2, 8) : i \in 1..Len(rows)}) = Len(rows)
OwnEvent(e, r) == \A s \in 1..Len(r.src) : \A rows \in {Got(e, s).ele, Got(e, s).pos, Got(e, s).pho} :
    \A k \in 1..Len(rows) : \E i \in Idx(r, s) : REq(rows[k][1], i)
ChargeOk(e, r) == \A s \in 1..Len(r.src) : \A i \in Idx(r, s) :
    LET ele == Len(Event(Got(e, s).ele, i))  pos == Len(Event(Got(e, s).pos, i))
    IN  /\ pos - ele = Charge(r.src[s].who)
        /\ ~r.pair => ele + pos = (IF r.src[s].who = "Photon" THEN 0 ELSE 1)
\* emission of whole photons in a magnetic field keeps the sum of the momenta's sizes
\* (as well as the integrator does: not for leptons that turn far in a step)
SizeSum(rows) == RSum([k \in 1..Len(rows) |-> VMag(Row(rows[k]).p)])
MomentumOk(e, r) == \A s \in 1..Len(r.src) : \A i \in Idx(r, s) :
    LET was == SizeSum(Event(Got(e, s).prim, i))
        lepton == RAdd(SizeSum(Event(Got(e, s).ele, i)), SizeSum(Event(Got(e, s).pos, i)))
        is == RAdd(lepton, SizeSum(Event(Got(e, s).pho, i)))
    IN  RLe(RMul(4, lepton), was) \/ RClose(is, was, RDec("5e-3"), RDec("1e-3"))
\* photons are emitted with draws of their own: no two are the same
OwnDraws(e, r) == \A s \in 1..Len(r.src) :
    LET rows == SelectSeq(Got(e, s).pho, LAMBDA g : \A k \in 1..Len(Got(e, s).prim) : g[2] # Got(e, s).prim[k][2])
    IN  Cardinality({rows[k][2] : k \in 1..Len(rows)}) = Len(rows)
AllFinal(e) == LET RECURSIVE From(_) From(s) == IF s > Len(e.out.src) THEN <<>> ELSE Got(e, s).ele \o Got(e, s).pos \o Got(e, s).pho \o From(s + 1) IN From(1)
NumLeptons(e) == RSum([s \in 1..Len(e.out.src) |-> Len(Got(e, s).ele) + Len(Got(e, s).pos)])
Total(e) == RSum([s \in 1..Len(e.src) |-> e.src[s].num])
Ended(t) == LET n == Len(t.t) IN n >= 1 /\ Len(t.x) = n /\ Len(t.p) = n /\ Len(t.g) = n
EndsAt(g, t) == VClose(t.p[Len(t.p)], Row(g).p, RDec("1e-9"), RDec("1e-12")) /\ VClose(t.x[Len(t.x)], Row(g).x, RDec("1e-9"), RDec("1e-12"))
\* how many of want have no track of their own among got
RECURSIVE Trackless(_, _)
Trackless(want, got) ==
    IF want = <<>> THEN 0
    ELSE LET c == {i \in 1..Len(got) : EndsAt(Head(want), got[i])}
         IN  IF c = {} THEN 1 + Trackless(Tail(want), got)
             ELSE Trackless(Tail(want), Without(got, CHOOSE i \in c : \A j \in c : i <= j))
\* every particle has a track, those born in the last step an empty one; a survivor's ends where it is
TracksOk(e, r) ==
    IF ~r.track THEN e.out.tracks = <<>>
    ELSE LET fin == AllFinal(e)  gone == RDiv(RSub(NumLeptons(e), Leptons(e)), 2)
             some == SelectSeq(e.out.tracks, LAMBDA t : Len(t.t) > 0)
         IN  /\ REq(Len(e.out.tracks), RAdd(Len(fin), gone))
             /\ \A k \in 1..Len(some) : Ended(some[k])
             /\ Trackless(fin, some) = Len(e.out.tracks) - Len(some)
             /\ REq(Len(SelectSeq(some, LAMBDA t : RClose(t.t[1], r.dt, RDec("1e-9"), 0))), Total(e))
\* a histogram without limits to speak of has every particle of its kind, those of the start or of the end
HistOk(e, r) == Len(e.out.hist) = Len(r.hist) /\ \A h \in 1..Len(r.hist) :
    LET who == r.hist[h].who
        want == IF REq(r.hist[h].time, 0) THEN RSum([s \in 1..Len(e.src) |-> IF e.src[s].who = who THEN e.src[s].num ELSE 0])
                ELSE RSum([s \in 1..Len(e.src) |-> Len(IF who = "Electron" THEN Got(e, s).ele ELSE IF who = "Positron" THEN Got(e, s).pos ELSE Got(e, s).pho)])
    IN  REq(RSum(e.out.hist[h].v), want)
ThreadsVerdict(e) ==
    IF e.out.status # 0 THEN "the run ends normally"
    ELSE IF ~Shapes(e) THEN "the groups and tables of the file"
    ELSE LET r == TLCEval(RunOf(e, FieldOf(e)))
         IN  FirstBroken(<<
               <<"every event once", OncePrimary(e, r)>>,
               <<"the primaries", PrimaryIs(e, r)>>,
               <<"survivors belong to events", OwnEvent(e, r)>>,
               <<"charge and lepton number in every event", ChargeOk(e, r)>>,
               <<"momentum in every event", e.whole => MomentumOk(e, r)>>,
               <<"own random draws", OwnDraws(e, r)>>,
               <<"tracks", TracksOk(e, r)>>,
               <<"histogram entries", HistOk(e, r)>> >>)
=============================================================================
