------------------------------- MODULE Gather -------------------------------
(***************************************************************************)
(* Ranks that run the same sources and histograms, each on its own, and     *)
(* send what they have to rank 0, which writes the file.  The ranks are     *)
(* programs of message-passing operations; the rules of passing are those   *)
(* of MPI: messages between two ranks do not overtake each other, a         *)
(* standard send may wait for its receive or not, as it likes each time, a  *)
(* receive takes the first message that fits, from any rank that has one if *)
(* it takes them from anyone.                                               *)
(*                                                                         *)
(* What rank r has of item k (primaries, electrons, ... of a source, or a   *)
(* histogram) is the set {<<r, k>>}; what must come out is the Merge.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs,        \* ranks 0..Procs-1
          Outs,         \* for each source, whether it is output
          NHist,        \* number of histograms
          Modes,        \* whether a send may wait for its receive: some of {TRUE, FALSE}
          BarrierEach   \* whether all ranks wait for each other after each histogram
VARIABLES pc,           \* the next operation of each rank
          box,          \* box[r]: messages to r that are not received, in the order they were sent
          have,         \* have[k]: what rank 0 has of item k
          sizes,        \* the sizes rank 0 was told
          hist          \* schedule so far, kept by models that print it
vars == <<pc, box, have, sizes, hist>>

Ranks == 0..(Procs - 1)
Kinds == <<"electrons", "positrons", "photons">>
Item(s, k) == <<s, k>>
Merge(k) == {<<r, k>> : r \in Ranks}
Items == {Item(s, k) : s \in {t \in 1..Len(Outs) : Outs[t]}, k \in {"primaries", "electrons", "positrons", "photons"}}
         \cup {Item(h, "hist") : h \in 1..NHist}

\* ---------------------------------------------------------------- programs
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Send(tag, size, d) == [op |-> "send", to |-> 0, tag |-> tag, size |-> size, data |-> d]
Recv(from, tag, size, k) == [op |-> "recv", from |-> from, tag |-> tag, size |-> size, item |-> k]
Probe(from, tag) == [op |-> "probe", from |-> from, tag |-> tag]
Barrier == [op |-> "barrier"]
Wait == IF BarrierEach THEN <<Barrier>> ELSE <<>>
SlaveSource(r, s) == IF ~Outs[s] THEN <<>> ELSE
    <<Send(1, FALSE, <<r, Item(s, "primaries")>>)>> \o [i \in 1..3 |-> Send(i + 1, TRUE, <<r, Item(s, Kinds[i])>>)]
    \o [i \in 1..3 |-> Send(i + 1, FALSE, <<r, Item(s, Kinds[i])>>)]
MasterSource(s) == IF ~Outs[s] THEN <<>> ELSE
    Cat([r \in 1..(Procs - 1) |-> <<Probe(r, 1)>>])
    \o Cat([r \in 1..(Procs - 1) |-> <<Recv(r, 1, FALSE, Item(s, "primaries"))>>])
    \o Cat([r \in 1..(Procs - 1) |-> [i \in 1..3 |-> Recv(r, i + 1, TRUE, Item(s, Kinds[i]))]])
    \o Cat([r \in 1..(Procs - 1) |-> [i \in 1..3 |-> Recv(r, i + 1, FALSE, Item(s, Kinds[i]))]])
SlaveHist(r, h) == <<Send(0, FALSE, <<r, Item(h, "hist")>>)>> \o Wait
MasterHist(h) == [i \in 1..(Procs - 1) |-> Recv(-1, 0, FALSE, Item(h, "hist"))] \o Wait
Program == [r \in Ranks |->
    IF r = 0 THEN Cat([s \in 1..Len(Outs) |-> MasterSource(s)]) \o Cat([h \in 1..NHist |-> MasterHist(h)])
    ELSE Cat([s \in 1..Len(Outs) |-> SlaveSource(r, s)]) \o Cat([h \in 1..NHist |-> SlaveHist(r, h)])]

\* ------------------------------------------------------- passing messages
Done(r) == pc[r].at > Len(Program[r])
Op(r) == Program[r][pc[r].at]
Is(r, op) == ~Done(r) /\ Op(r).op = op
Advance(p, r) == [p EXCEPT ![r] = [at |-> @.at + 1, sent |-> FALSE]]
Init == /\ pc = [r \in Ranks |-> [at |-> 1, sent |-> FALSE]]
        /\ box = <<>> /\ have = [k \in Items |-> {<<0, k>>}] /\ sizes = {} /\ hist = <<>>
Log(r) == hist' = hist
\* the message is on its way; the sender goes on, or waits until it is received
Post(r, waits) == /\ Is(r, "send") /\ ~pc[r].sent
                  /\ box' = Append(box, [from |-> r, tag |-> Op(r).tag, size |-> Op(r).size, data |-> Op(r).data, waits |-> waits])
                  /\ pc' = IF waits THEN [pc EXCEPT ![r].sent = TRUE] ELSE Advance(pc, r)
                  /\ UNCHANGED <<have, sizes>>
Fits(m, o) == (o.from = -1 \/ m.from = o.from) /\ m.tag = o.tag
\* the first that fits of those from the same rank
Candidates(o) == {i \in 1..Len(box) : Fits(box[i], o) /\ \A j \in 1..(i - 1) : ~(Fits(box[j], o) /\ box[j].from = box[i].from)}
Probed == /\ Is(0, "probe") /\ Candidates(Op(0)) # {} /\ pc' = Advance(pc, 0) /\ UNCHANGED <<box, have, sizes>>
Received == /\ Is(0, "recv")
            /\ \E i \in Candidates(Op(0)) :
                 LET m == box[i]  o == Op(0)
                 IN  /\ box' = SubSeq(box, 1, i - 1) \o SubSeq(box, i + 1, Len(box))
                     /\ pc' = IF m.waits THEN Advance(Advance(pc, m.from), 0) ELSE Advance(pc, 0)
                     /\ IF o.size THEN sizes' = sizes \cup {<<m.size, m.data, o.item>>} /\ UNCHANGED have
                        ELSE have' = [have EXCEPT ![o.item] = @ \cup {m.data}] /\ sizes' = IF m.size THEN sizes \cup {<<FALSE, m.data, o.item>>} ELSE sizes
AllMet == /\ \A r \in Ranks : Is(r, "barrier")
          /\ pc' = [r \in Ranks |-> [at |-> pc[r].at + 1, sent |-> FALSE]] /\ UNCHANGED <<box, have, sizes>>
Finished == \A r \in Ranks : Done(r)
Act(r) == IF r = 0 THEN Probed \/ Received \/ AllMet ELSE \E w \in Modes : Post(r, w)
Next == (\E r \in Ranks : Act(r) /\ Log(r)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A r \in Ranks : WF_vars(Act(r) /\ Log(r))

\* -------------------------------------------------------------------- laws
\* no deadlock (TLC's own check); nothing is lost, doubled or mixed up
Complete == Finished => box = <<>> /\ \A k \in Items : have[k] = Merge(k)
OnlyOwn == \A k \in Items : have[k] \subseteq Merge(k)
\* sizes are received as sizes, of the item they are meant for
SizesMatch == \A z \in sizes : z[1] /\ z[2][2] = z[3]
Ends == <>Finished

OutsMixed == <<TRUE, FALSE, TRUE>>
OutsOne == <<TRUE>>
OutsNone == <<FALSE>>
=============================================================================
