-------------------------------- MODULE Bags --------------------------------
(* Sequences that are the same but for order and for what Ok allows. *)
EXTENDS Integers, Sequences
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* the first of got, from i on, that will do for w; 0 if none will
RECURSIVE FirstFor(_, _, _, _)
FirstFor(Ok(_, _), w, got, i) == IF i > Len(got) THEN 0 ELSE IF Ok(w, got[i]) THEN i ELSE FirstFor(Ok, w, got, i + 1)
RECURSIVE Matches(_, _, _)
Matches(Ok(_, _), want, got) ==
    IF Len(want) # Len(got) THEN FALSE
    ELSE IF want = <<>> THEN TRUE
    ELSE LET k == FirstFor(Ok, Head(want), got, 1)
         IN  k # 0 /\ Matches(Ok, Tail(want), Without(got, k))
=============================================================================
