--------------------------- MODULE RunManagerGen ----------------------------
(***************************************************************************)
(* Everything a user can do with a run manager, up to what it holds: every  *)
(* settings state is reached once and every call made in it; the calls that *)
(* lead there and the call are printed for the real manager.  The laws      *)
(* state the protocol from the history of the calls alone.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Omp, Say
VARIABLES st, calls

GPositive(dt) == dt > 0
GBetween(v) == v >= 0 /\ v <= 10       \* in tenths
INSTANCE RunManager WITH Positive <- GPositive, Between01 <- GBetween, Whole <- 10

Calls ==
    {[c |-> "time", dt |-> d] : d \in {0, -1, 1, 2}}
    \cup {[c |-> "field", name |-> n] : n \in {"gaussian", "Focusing", "static"}}
    \cup {[c |-> "physics", name |-> n] : n \in {"Quantum", "classical", "QED"}}
    \cup {[c |-> "source", name |-> n] : n \in {"Electron", "photon", "Muon"}}
    \cup {[c |-> "fraction", v |-> v] : v \in {4, 10, -3, 12}}
    \cup {[c |-> "pair", use |-> b] : b \in BOOLEAN}
    \cup {[c |-> "run", events |-> n, threads |-> t] : n \in {-1, 0, 2}, t \in {0, 1, 2}}
Init == st = New /\ calls = <<>>
Next == \E c \in Calls :
    /\ Say => PrintT(<<"CMD", ToString(Append(calls, c))>>)
    /\ st' = Apply(st, c, Omp) /\ calls' = Append(calls, c)
\* of the results only whether there are any, and from an empty run
View == <<st.time, st.field, st.model, st.source, st.frac, st.pair, st.last = NoRun, st.last.events = 0>>
Few == Len(calls) < 12

\* ------------------------------------------------------------------- laws
Idx(name) == {i \in 1..Len(calls) : calls[i].c = name}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
LastOf(name) == calls[Max(Idx(name))]
Good(c) == ~InError(New, c, TRUE) /\ (c.c = "time" => c.dt > 0)
\* a kind of setting is in force exactly when the last one set was a good one, and then it is that one
Protocol == \A k \in {<<"time", st.time>>, <<"field", st.field>>, <<"physics", st.model>>, <<"source", st.source>>} :
    (k[2].on <=> IF Idx(k[1]) = {} THEN FALSE ELSE Good(LastOf(k[1]))) /\ (k[2].on => k[2].v = LastOf(k[1]))
FractionLaw == LET good == {i \in Idx("fraction") : GBetween(calls[i].v)} IN IF good = {} THEN st.frac = 10 ELSE st.frac = calls[Max(good)].v
PairLaw == st.pair = (IF Idx("pair") = {} THEN FALSE ELSE LastOf("pair").use)
\* a run is made of what was last set before it, and a refused one changes nothing
HasRun(i) == /\ calls[i].events >= 0 /\ calls[i].threads >= 1 /\ (Omp \/ calls[i].threads = 1)
             /\ \A k \in {"time", "field", "physics", "source"} :
                   LET b == {j \in Idx(k) : j < i} IN IF b = {} THEN FALSE ELSE Good(calls[Max(b)])
Runs == {i \in Idx("run") : HasRun(i)}
ResultLaw == IF Runs = {} THEN st.last = NoRun
             ELSE LET i == Max(Runs)  Before(k) == calls[Max({j \in Idx(k) : j < i})]
                  IN  /\ st.last.events = calls[i].events /\ st.last.set.time = Before("time") /\ st.last.set.field = Before("field")
                      /\ st.last.set.model = Before("physics") /\ st.last.set.source = Before("source")
=============================================================================
