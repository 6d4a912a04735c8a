----------------------------- MODULE InputFile ------------------------------
(***************************************************************************)
(* The input file: how its lines are read.  A file is a sequence of lines,  *)
(* a line a string.  What has been read so far is                          *)
(*   sec     the section being read                                        *)
(*   prev    key of the entry that an indented line would continue          *)
(*   vals    entries in order, <<section, key, text>>                      *)
(* Section and key names are kept in lower case: case does not matter.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Real64

At(s, i) == IF i < 1 \/ i > Len(s) THEN "" ELSE SubSeq(s, i, i)
Blank == {" ", "\t", "\r", "\n", "\f"}
RECURSIVE LStrip(_)
LStrip(s) == IF s # "" /\ At(s, 1) \in Blank THEN LStrip(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # "" /\ At(s, Len(s)) \in Blank THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == LStrip(RStrip(s))
LowerOf == ("A" :> "a") @@ ("B" :> "b") @@ ("C" :> "c") @@ ("D" :> "d") @@ ("E" :> "e") @@ ("F" :> "f") @@ ("G" :> "g") @@ ("H" :> "h")
        @@ ("I" :> "i") @@ ("J" :> "j") @@ ("K" :> "k") @@ ("L" :> "l") @@ ("M" :> "m") @@ ("N" :> "n") @@ ("O" :> "o") @@ ("P" :> "p")
        @@ ("Q" :> "q") @@ ("R" :> "r") @@ ("S" :> "s") @@ ("T" :> "t") @@ ("U" :> "u") @@ ("V" :> "v") @@ ("W" :> "w") @@ ("X" :> "x")
        @@ ("Y" :> "y") @@ ("Z" :> "z")
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE (IF At(s, 1) \in DOMAIN LowerOf THEN LowerOf[At(s, 1)] ELSE At(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))

\* place of the first of chars, of an inline comment (a ; after a blank), or
\* of the end of s, from place i on
RECURSIVE Find(_, _, _)
Find(s, chars, i) ==
    IF i > Len(s) \/ At(s, i) \in chars \/ (i > 1 /\ At(s, i - 1) \in Blank /\ At(s, i) = ";") THEN i ELSE Find(s, chars, i + 1)

Nothing == [sec |-> "", prev |-> "", vals |-> <<>>]
ReadLine(r, line) ==
    LET t == Strip(line)
    IN  IF t = "" \/ At(t, 1) \in {";", "#"} THEN r
        ELSE IF r.prev # "" /\ At(line, 1) \in Blank THEN [r EXCEPT !.vals = Append(@, <<r.sec, r.prev, t>>)]
        ELSE IF At(t, 1) = "["
             THEN LET rest == SubSeq(t, 2, Len(t))  k == Find(rest, {"]"}, 1)
                  IN  IF At(rest, k) = "]" THEN [r EXCEPT !.sec = Lower(SubSeq(rest, 1, k - 1)), !.prev = ""] ELSE r
        ELSE LET k == Find(t, {"=", ":"}, 1)
             IN  IF At(t, k) \notin {"=", ":"} THEN r
                 ELSE LET key == Lower(RStrip(SubSeq(t, 1, k - 1)))
                          rest == SubSeq(t, k + 1, Len(t))
                          value == Strip(SubSeq(rest, 1, Find(rest, {}, 1) - 1))
                      IN  [r EXCEPT !.prev = key, !.vals = Append(@, <<r.sec, key, value>>)]
RECURSIVE ReadFrom(_, _, _)
ReadFrom(r, lines, i) == IF i > Len(lines) THEN r ELSE ReadFrom(TLCEval(ReadLine(r, lines[i])), lines, i + 1)
Read(lines) == ReadFrom(Nothing, lines, 1)

\* ----------------------------------------------------------------- values
Mine(r, sec, key) == SelectSeq(r.vals, LAMBDA v : v[1] = sec /\ v[2] = key)
HasSection(r, sec) == \E i \in 1..Len(r.vals) : r.vals[i][1] = sec
Has(r, sec, key) == Mine(r, sec, key) # <<>>
RECURSIVE JoinLines(_)
JoinLines(v) == IF v = <<>> THEN "" ELSE IF Len(v) = 1 \/ Head(v)[3] = "" THEN Head(v)[3] \o JoinLines(Tail(v)) ELSE Head(v)[3] \o "\n" \o JoinLines(Tail(v))
Text(r, sec, key) == JoinLines(Mine(r, sec, key))

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Sign == {"+", "-"}
RECURSIVE Run(_, _, _)
Run(s, chars, i) == IF At(s, i) \in chars THEN Run(s, chars, i + 1) ELSE i      \* first place that is not one of chars
\* the number that begins at place i: what follows it, or i if there is none
NumberEnd(s, i) ==
    LET a == IF At(s, i) \in Sign THEN i + 1 ELSE i
        b == Run(s, Digit, a)
        c == IF At(s, b) = "." THEN Run(s, Digit, b + 1) ELSE b
        some == b > a \/ c > b + 1
        d == IF At(s, c) \in {"e", "E"} THEN (IF At(s, c + 1) \in Sign THEN c + 2 ELSE c + 1) ELSE c
        e == Run(s, Digit, d)
    IN  IF ~some THEN i ELSE IF d > c /\ e > d THEN e ELSE c
NumberAt(s, i) == RDec(SubSeq(s, i, NumberEnd(s, i) - 1))
AsReal(s, dflt) == IF NumberEnd(s, 1) > 1 THEN NumberAt(s, 1) ELSE dflt
HexOf == [i \in 0..15 |-> CASE i < 10 -> {ToString(i)} [] i = 10 -> {"a", "A"} [] i = 11 -> {"b", "B"} [] i = 12 -> {"c", "C"}
                            [] i = 13 -> {"d", "D"} [] i = 14 -> {"e", "E"} [] i = 15 -> {"f", "F"}]
Hex == UNION {HexOf[i] : i \in 0..15}
RECURSIVE Whole(_, _, _)
Whole(s, base, acc) == IF s = "" THEN acc ELSE Whole(SubSeq(s, 2, Len(s)), base, acc * base + (CHOOSE i \in 0..15 : At(s, 1) \in HexOf[i]))
AsInt(s, dflt) ==
    LET a == IF At(s, 1) \in Sign THEN 2 ELSE 1
        hex == At(s, a) = "0" /\ At(s, a + 1) \in {"x", "X"} /\ At(s, a + 2) \in Hex
        b == IF hex THEN a + 2 ELSE a
        e == Run(s, IF hex THEN Hex ELSE Digit, b)
        v == Whole(SubSeq(s, b, e - 1), IF hex THEN 16 ELSE 10, 0)
    IN  IF e = b THEN dflt ELSE IF At(s, 1) = "-" THEN 0 - v ELSE v
AsBool(s, dflt) == CASE Lower(s) \in {"true", "yes", "on", "1"} -> TRUE [] Lower(s) \in {"false", "no", "off", "0"} -> FALSE [] OTHER -> dflt
AsText(s, dflt) == IF s = "" THEN dflt ELSE s
\* all numbers of s, anything else separating them
NumberChars == Digit \cup Sign \cup {".", "e", "E"}
RECURSIVE Numbers(_, _)
Numbers(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF At(s, i) \notin NumberChars THEN Numbers(s, i + 1)
    ELSE IF NumberEnd(s, i) = i THEN <<>>
    ELSE <<NumberAt(s, i)>> \o Numbers(s, NumberEnd(s, i))
Comp(n, i) == IF i <= Len(n) THEN n[i] ELSE 0
AsVec(s, dflt) == LET n == Numbers(s, 1) IN IF n = <<>> THEN dflt ELSE <<Comp(n, 1), Comp(n, 2), Comp(n, 3)>>
=============================================================================
