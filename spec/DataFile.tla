------------------------------ MODULE DataFile ------------------------------
(***************************************************************************)
(* The data file and the handle through which the program writes it.        *)
(* A path is a sequence of names; the root is <<>>.  A file holds groups    *)
(* and arrays.  Every operation succeeds as a whole or is refused and       *)
(* changes nothing.                                                         *)
(*   here    there is a file that can be opened                             *)
(*   groups  the paths of its groups                                        *)
(*   arrays  <<path, dims, data>> of its arrays, each path once             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
NoFile == [here |-> FALSE, groups |-> {}, arrays |-> {}]
Fresh == [here |-> TRUE, groups |-> {}, arrays |-> {}]
Arrays(f) == {a[1] : a \in f.arrays}
Known(f, p) == p = <<>> \/ p \in f.groups \/ p \in Arrays(f)
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Room(f, p) == Parent(p) = <<>> \/ Parent(p) \in f.groups
Elements(d) == IF d = <<>> THEN 1 ELSE IF Len(d) = 1 THEN d[1] ELSE IF Len(d) = 2 THEN d[1] * d[2] ELSE d[1] * d[2] * d[3]

\* opening: a new file replaces what was there, to append needs a file
Opens(f, mode) == mode = "new" \/ (mode = "append" /\ f.here)
Opened(f, mode) == IF mode = "new" THEN Fresh ELSE f

\* c: [o |-> "group" / "sub" / "array", path, dims, data]
\* a group that is there is used as it is; a subgroup must be new
Allowed(f, c) ==
    CASE c.o = "group" -> Known(f, c.path) \/ Room(f, c.path)
      [] c.o = "sub"   -> ~Known(f, c.path) /\ Room(f, c.path)
      [] c.o = "array" -> ~Known(f, c.path) /\ Room(f, c.path)
Done(f, c) ==
    IF ~Allowed(f, c) THEN f
    ELSE IF c.o = "array" THEN [f EXCEPT !.arrays = @ \cup {<<c.path, c.dims, c.data>>}]
    ELSE IF Known(f, c.path) THEN f
    ELSE [f EXCEPT !.groups = @ \cup {c.path}]
RECURSIVE AfterAll(_, _)
AfterAll(f, cs) == IF cs = <<>> THEN f ELSE AfterAll(Done(f, Head(cs)), Tail(cs))

\* ------------------------------------------------------------------ laws
\* everything has a place, and places do not coincide
Placed(f) == /\ \A p \in f.groups \cup Arrays(f) : Room(f, p)
             /\ f.groups \cap Arrays(f) = {}
             /\ Cardinality(Arrays(f)) = Cardinality(f.arrays)
             /\ ~f.here => f.groups \cup Arrays(f) = {}
=============================================================================
