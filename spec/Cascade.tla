------------------------------ MODULE Cascade -------------------------------
(***************************************************************************)
(* A run of the program: its sources one after the other, their events one  *)
(* after the other, each event step by step.  This module is the machine;   *)
(* what particles are and do is given by the operators declared here, once  *)
(* with small whole numbers (CascadeModel, explored exhaustively) and once  *)
(* with the physics of the other modules (CascadeRun, compared with runs of *)
(* the program).                                                            *)
(*   Sources(r)          the sources of run r: records with num and out     *)
(*   Primaries(r, s, i)  what event i of source s may start with            *)
(*   Move(r, p)          living particle p one step later                   *)
(*   React(r, p)         what p may do then: [self, born, lost]             *)
(*   Zero, Tick(r, t), Running(r, t)   the clock of the run                 *)
(*   Hists(r), Due(r, h, t)            histograms and when they are filled  *)
(*   BinOf(r, h, p)      the bin histogram h counts p in, or 0 for none     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sources(_), Primaries(_, _, _), Move(_, _), React(_, _),
          Zero, Tick(_, _), Running(_, _), Hists(_), Due(_, _, _), BinOf(_, _, _)
VARIABLES run,      \* the run
          pc,       \* "next" event, "step", "move", "done"
          src, evt, \* source and event being simulated
          time,     \* time of the simulation
          parts,    \* particles of the event
          todo,     \* those that have still to move in this step
          fired,    \* how many histograms have been filled in this event
          counts,   \* contents of the histograms
          tables,   \* per source: rows of primaries and of survivors
          tracks    \* of all particles of the events that have ended
vars == <<run, pc, src, evt, time, parts, todo, fired, counts, tables, tracks>>

NoHits(h) == [b \in 1..h.bins |-> 0]
Start(r) == /\ run = r /\ pc = "next" /\ src = 1 /\ evt = 0 /\ time = Zero /\ parts = <<>> /\ todo = {} /\ fired = 0
            /\ counts = [h \in 1..Len(Hists(r)) |-> NoHits(Hists(r)[h])]
            /\ tables = [s \in 1..Len(Sources(r)) |-> [primary |-> <<>>, final |-> <<>>]]
            /\ tracks = <<>>

\* every living particle counts once; a dead one not at all
RECURSIVE Fill(_, _, _, _)
Fill(r, h, c, ps) ==
    IF ps = <<>> THEN c
    ELSE LET b == IF Head(ps).alive THEN BinOf(r, h, Head(ps)) ELSE 0
         IN  Fill(r, h, IF b = 0 THEN c ELSE [c EXCEPT ![b] = @ + 1], Tail(ps))
FillAll(from) == [h \in DOMAIN counts |-> IF h > from THEN TLCEval(Fill(run, Hists(run)[h], counts[h], parts)) ELSE counts[h]]

NextSource == /\ pc = "next" /\ src <= Len(Sources(run)) /\ evt = Sources(run)[src].num
              /\ src' = src + 1 /\ evt' = 0
              /\ UNCHANGED <<run, pc, time, parts, todo, fired, counts, tables, tracks>>
EndRun == /\ pc = "next" /\ src > Len(Sources(run)) /\ pc' = "done"
          /\ UNCHANGED <<run, src, evt, time, parts, todo, fired, counts, tables, tracks>>
BeginEvent ==
    /\ pc = "next" /\ src <= Len(Sources(run)) /\ evt < Sources(run)[src].num
    /\ \E p \in Primaries(run, src, evt) :
          /\ parts' = <<p>>
          /\ tables' = [tables EXCEPT ![src].primary = Append(@, [id |-> evt, part |-> p])]
    /\ pc' = "step" /\ time' = Zero /\ fired' = 0
    /\ UNCHANGED <<run, src, evt, todo, counts, tracks>>
HistDue == pc = "step" /\ Running(run, time) /\ fired < Len(Hists(run)) /\ Due(run, Hists(run)[fired + 1], time)
FillHist == /\ HistDue
            /\ counts' = [counts EXCEPT ![fired + 1] = Fill(run, Hists(run)[fired + 1], @, parts)]
            /\ fired' = fired + 1
            /\ UNCHANGED <<run, pc, src, evt, time, parts, todo, tables, tracks>>
\* only particles there at the start of a step take it
BeginStep == /\ pc = "step" /\ Running(run, time) /\ ~HistDue
             /\ pc' = "move" /\ todo' = 1..Len(parts)
             /\ UNCHANGED <<run, src, evt, time, parts, fired, counts, tables, tracks>>
After(ps, k, o) == [ps EXCEPT ![k] = o.self] \o o.born
Outcomes(r, p) == IF p.alive THEN React(r, Move(r, p)) ELSE {[self |-> p, born |-> <<>>, lost |-> 0]}
MoveOne(k) == /\ pc = "move" /\ k \in todo
              /\ \E o \in Outcomes(run, parts[k]) : parts' = After(parts, k, o)
              /\ todo' = todo \ {k}
              /\ UNCHANGED <<run, pc, src, evt, time, fired, counts, tables, tracks>>
EndStep == /\ pc = "move" /\ todo = {} /\ pc' = "step" /\ time' = Tick(run, time)
           /\ UNCHANGED <<run, src, evt, parts, todo, fired, counts, tables, tracks>>
\* the histograms whose time did not come are filled at the end
RECURSIVE Living(_, _)
Living(ps, id) == IF ps = <<>> THEN <<>>
                  ELSE (IF Head(ps).alive THEN <<[id |-> id, part |-> Head(ps)]>> ELSE <<>>) \o Living(Tail(ps), id)
EndEvent == /\ pc = "step" /\ ~Running(run, time)
            /\ counts' = FillAll(fired) /\ fired' = Len(Hists(run))
            /\ tables' = [tables EXCEPT ![src].final = @ \o Living(parts, evt)]
            /\ tracks' = tracks \o [i \in 1..Len(parts) |-> parts[i].hist]
            /\ evt' = evt + 1 /\ pc' = "next"
            /\ UNCHANGED <<run, src, time, parts, todo>>

\* all particles of a step at once, for machines without a choice
RECURSIVE MoveUpTo(_, _, _)
MoveUpTo(r, ps, k) ==
    IF k = 0 THEN ps
    ELSE LET before == TLCEval(MoveUpTo(r, ps, k - 1))
         IN  TLCEval(After(before, k, CHOOSE o \in Outcomes(r, before[k]) : TRUE))
MoveAll == /\ pc = "step" /\ Running(run, time) /\ ~HistDue
           /\ parts' = MoveUpTo(run, parts, Len(parts)) /\ time' = Tick(run, time)
           /\ UNCHANGED <<run, pc, src, evt, todo, fired, counts, tables, tracks>>

Around == NextSource \/ EndRun \/ BeginEvent \/ FillHist \/ EndEvent
NextFine == Around \/ BeginStep \/ (\E k \in todo : MoveOne(k)) \/ EndStep
NextCoarse == Around \/ MoveAll
=============================================================================
