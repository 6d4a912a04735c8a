------------------------------ MODULE Threads -------------------------------
(***************************************************************************)
(* The event loop of a source on several threads.  Iterations 1..N of the   *)
(* loop are dealt to the threads in some way; in each, a thread takes the   *)
(* next sample of the source, stores it as the primary of its iteration,    *)
(* counts it in a histogram, stores what became of it and appends its       *)
(* track.  Steps that touch what is shared are single memory accesses:      *)
(* counting is a read and a write, appending a read of the length and a     *)
(* write.  The constants say how they are protected.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS T, N, AtomicTake, LockHist, LockTrack
VARIABLES pc, todo, it, got, tmp, next, prim, fin, hist, len, tracks, owner
vars == <<pc, todo, it, got, tmp, next, prim, fin, hist, len, tracks, owner>>

Threads == 1..T
Iters == 1..N
Nobody == 0
\* any deal of the iterations (static ones are runs of them, dynamic ones any)
Init ==
    /\ pc = [t \in Threads |-> "idle"]
    /\ \E deal \in [Iters -> Threads] : todo = [t \in Threads |-> {i \in Iters : deal[i] = t}]
    /\ it = [t \in Threads |-> 0] /\ got = [t \in Threads |-> 0] /\ tmp = [t \in Threads |-> 0]
    /\ next = 1 /\ prim = [i \in Iters |-> 0] /\ fin = [i \in Iters |-> 0]
    /\ hist = 0 /\ len = 0 /\ tracks = [i \in Iters |-> 0]
    /\ owner = [l \in {"hist", "track"} |-> Nobody]
Go(t, from, to) == pc[t] = from /\ pc' = [pc EXCEPT ![t] = to]

Begin(t) == /\ Go(t, "idle", "take") /\ todo[t] # {}
            /\ it' = [it EXCEPT ![t] = CHOOSE i \in todo[t] : \A k \in todo[t] : i <= k]
            /\ todo' = [todo EXCEPT ![t] = @ \ {it'[t]}]
            /\ UNCHANGED <<got, tmp, next, prim, fin, hist, len, tracks, owner>>
Take(t) == IF AtomicTake
           THEN /\ Go(t, "take", "primary") /\ got' = [got EXCEPT ![t] = next] /\ next' = next + 1
                /\ UNCHANGED <<todo, it, tmp, prim, fin, hist, len, tracks, owner>>
           ELSE /\ Go(t, "take", "taking") /\ got' = [got EXCEPT ![t] = next]
                /\ UNCHANGED <<todo, it, tmp, next, prim, fin, hist, len, tracks, owner>>
Taking(t) == /\ Go(t, "taking", "primary") /\ next' = got[t] + 1
             /\ UNCHANGED <<todo, it, got, tmp, prim, fin, hist, len, tracks, owner>>
StorePrimary(t) == /\ Go(t, "primary", "enter hist") /\ prim' = [prim EXCEPT ![it[t]] = got[t]]
                   /\ UNCHANGED <<todo, it, got, tmp, next, fin, hist, len, tracks, owner>>
Enter(t, l, on) == /\ Go(t, "enter " \o l, "read " \o l)
                   /\ IF on THEN owner[l] = Nobody /\ owner' = [owner EXCEPT ![l] = t] ELSE UNCHANGED owner
                   /\ UNCHANGED <<todo, it, got, tmp, next, prim, fin, hist, len, tracks>>
ReadHist(t) == /\ Go(t, "read hist", "write hist") /\ tmp' = [tmp EXCEPT ![t] = hist]
               /\ UNCHANGED <<todo, it, got, next, prim, fin, hist, len, tracks, owner>>
WriteHist(t) == /\ Go(t, "write hist", "final") /\ hist' = tmp[t] + 1
                /\ owner' = IF LockHist THEN [owner EXCEPT !["hist"] = Nobody] ELSE owner
                /\ UNCHANGED <<todo, it, got, tmp, next, prim, fin, len, tracks>>
StoreFinal(t) == /\ Go(t, "final", "enter track") /\ fin' = [fin EXCEPT ![it[t]] = got[t]]
                 /\ UNCHANGED <<todo, it, got, tmp, next, prim, hist, len, tracks, owner>>
ReadTrack(t) == /\ Go(t, "read track", "write track") /\ tmp' = [tmp EXCEPT ![t] = len]
                /\ UNCHANGED <<todo, it, got, next, prim, fin, hist, len, tracks, owner>>
WriteTrack(t) == /\ Go(t, "write track", "idle") /\ tracks' = [tracks EXCEPT ![tmp[t] + 1] = got[t]] /\ len' = tmp[t] + 1
                 /\ owner' = IF LockTrack THEN [owner EXCEPT !["track"] = Nobody] ELSE owner
                 /\ UNCHANGED <<todo, it, got, tmp, next, prim, fin, hist>>
Step(t) == Begin(t) \/ Take(t) \/ Taking(t) \/ StorePrimary(t) \/ Enter(t, "hist", LockHist) \/ ReadHist(t) \/ WriteHist(t)
           \/ StoreFinal(t) \/ Enter(t, "track", LockTrack) \/ ReadTrack(t) \/ WriteTrack(t)
Finished == \A t \in Threads : pc[t] = "idle" /\ todo[t] = {}
Next == (\E t \in Threads : Step(t)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

\* ------------------------------------------------------------------- laws
Once(f) == {f[i] : i \in Iters} = Iters       \* with N of them: each exactly once
NothingLost == Finished => Once(prim) /\ fin = prim /\ hist = N /\ len = N /\ Once(tracks)
\* no sample is out twice, at any time
OwnSample == \A t, s \in Threads : (t # s /\ got[t] # 0 /\ pc[t] # "take" /\ pc[s] # "take" /\ pc[t] # "idle" /\ pc[s] # "idle") => got[t] # got[s]
Exclusive == \A l \in {"hist", "track"} : Cardinality({t \in Threads : pc[t] \in {"read " \o l, "write " \o l}}) <= 1
Ends == <>Finished
=============================================================================
