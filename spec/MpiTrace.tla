------------------------------ MODULE MpiTrace ------------------------------
(***************************************************************************)
(* Runs on several ranks.  With constant draws (of each rank its own) the   *)
(* file is the Merge of what each rank would write alone (e.alone, runs of  *)
(* the program without MPI): all rows of all ranks once, histograms added.  *)
(* With random draws: every rank has its events once, with draws of its own.*)
(***************************************************************************)
EXTENDS Vec, Bags, Observed, FiniteSets

Same(w, g) == Len(w) = Len(g) /\ \A i \in 1..Len(w) : REq(w[i], g[i])
RECURSIVE Joined(_)
Joined(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Joined(Tail(ss))
Alone(e, f(_)) == Joined([r \in 1..Len(e.alone) |-> f(e.alone[r])])
RowsAre(e, f(_)) == Matches(Same, Alone(e, f), f(e.out))
Groups(e) == \A r \in 1..Len(e.alone) : Len(e.alone[r].src) = Len(e.out.src)
Primaries(e) == \A s \in 1..Len(e.out.src) : RowsAre(e, LAMBDA o : o.src[s].prim)
Survivors(e) == \A s \in 1..Len(e.out.src) : /\ RowsAre(e, LAMBDA o : o.src[s].ele)
                                             /\ RowsAre(e, LAMBDA o : o.src[s].pos)
                                             /\ RowsAre(e, LAMBDA o : o.src[s].pho)
Bins(e) == /\ \A r \in 1..Len(e.alone) : Len(e.alone[r].hist) = Len(e.out.hist)
           /\ \A h \in 1..Len(e.out.hist) : \A r \in 1..Len(e.alone) : e.alone[r].hist[h].name = e.out.hist[h].name /\ Same(e.alone[r].hist[h].c, e.out.hist[h].c)
Sums(e) == \A h \in 1..Len(e.out.hist) : \A i \in 1..Len(e.out.hist[h].v) :
              REq(e.out.hist[h].v[i], RSum([r \in 1..Len(e.alone) |-> e.alone[r].hist[h].v[i]]))

\* random draws
EventsOnce(e) == Len(e.out.src) = Len(e.nums) /\ \A s \in 1..Len(e.nums) :
    LET rows == e.out.src[s].prim
    IN  /\ Len(rows) = e.nums[s] * e.ranks
        /\ \A i \in 0..(e.nums[s] - 1) : Len(SelectSeq(rows, LAMBDA g : REq(g[1], i))) = e.ranks
\* energies, directions and places are drawn: no two primaries have the same
OwnPrimaries(e) == \A s \in 1..Len(e.nums) : e.drawn[s] =>
    LET rows == e.out.src[s].prim IN \A c \in {2, 3, 6} : Cardinality({rows[i][c] : i \in 1..Len(rows)}) = Len(rows)
\* photons that were emitted by like primaries are not alike either
Emitted(e, s) == SelectSeq(e.out.src[s].pho, LAMBDA g : \A k \in 1..Len(e.out.src[s].prim) : g[2] # e.out.src[s].prim[k][2])
OwnDraws(e) == \A s \in 1..Len(e.nums) : LET rows == Emitted(e, s) IN Cardinality({rows[k][2] : k \in 1..Len(rows)}) = Len(rows)
Charged(e) == \A s \in 1..Len(e.nums) : Len(e.out.src[s].pos) - Len(e.out.src[s].ele) = e.charges[s] * Len(e.out.src[s].prim)
AtStart(e) == \A h \in 1..Len(e.out.hist) : REq(RSum(e.out.hist[h].v), e.counted[h] * e.ranks)

MpiVerdict(e) ==
    IF e.why # "" THEN "every rank ends normally: " \o e.why
    ELSE IF e.out.status # 0 THEN "the output file can be read"
    ELSE IF e.mode = "merge" THEN
        IF \E r \in 1..Len(e.alone) : e.alone[r].status # 0 THEN "the runs of each rank alone"
        ELSE IF ~Groups(e) THEN "the groups of the file"
        ELSE FirstBroken(<< <<"the rows of primaries of all ranks", Primaries(e)>>,
                            <<"the rows of survivors of all ranks", Survivors(e)>>,
                            <<"the bin centres", Bins(e)>>,
                            <<"the sums of the histograms of all ranks", Sums(e)>> >>)
    ELSE IF ~EventsOnce(e) THEN "every event of every rank once"
    ELSE FirstBroken(<< <<"own primaries of every rank", OwnPrimaries(e)>>,
                        <<"own draws of every rank", OwnDraws(e)>>,
                        <<"charge", Charged(e)>>,
                        <<"histogram entries", AtStart(e)>> >>)
=============================================================================
