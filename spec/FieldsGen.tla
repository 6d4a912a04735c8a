----------------------------- MODULE FieldsGen ------------------------------
(* Every direction of travel on the cube, several polarisations and points:  *)
(* the laws of a light wave on the specified fields, and commands.           *)
EXTENDS Fields, Integers, Sequences, TLC
VARIABLES kind, d, pol, x, t

Dirs == {<<a, b, c>> : a \in -1..1, b \in -1..1, c \in -1..1} \ {<<0, 0, 0>>}
Kinds == {"plane", "gaussian", "focusing"}
Pols == {RDec("0"), RDec("0.7"), RDec("1"), RDec("1.5707963267948966"), RDec("-2")}
Points == {<<0, 0, 0>>, <<1, -1, 2>>, <<-3, 2, 1>>}
Times == {0, 3}

Conf(k, dd, pp, shift) ==
    IF k = "plane" THEN [kind |-> k, max |-> 2, lam |-> 5, pol |-> pp, dir |-> dd, half |-> "y"]
    ELSE [kind |-> k, max |-> 2, lam |-> 5, tau |-> 4, waist |-> 6, pol |-> pp,
          start |-> VSub(shift, dd), focus |-> VAdd(shift, dd), half |-> "y"]
F == Conf(kind, d, pol, <<0, 0, 0>>)

Init == kind \in Kinds /\ d \in Dirs /\ pol \in Pols /\ x \in Points /\ t \in Times
Next == FALSE /\ UNCHANGED <<kind, d, pol, x, t>>

Tiny == RDec("1e-11")
Here == FieldAt(F, t, x)
Wave == kind # "focusing" =>
    LET k == Axis(F)
    IN  /\ RClose(VDot(Here.e, k), 0, 0, Tiny) /\ RClose(VDot(Here.b, k), 0, 0, Tiny)
        /\ RClose(VDot(Here.e, Here.b), 0, 0, Tiny)
        /\ VClose(Here.b, VCross(k, Here.e), 0, Tiny)
Bounded == kind # "focusing" => RLe(VMag(Here.e), RDec("2.0000000001"))
\* moving the whole configuration moves the field
Shifted == LET s == <<4, -7, 2>>
               there == FieldAt(Conf(kind, d, pol, s), t, VAdd(x, s))
           IN  kind # "plane" => VClose(there.e, Here.e, 0, Tiny) /\ VClose(there.b, Here.b, 0, Tiny)
\* half a turn of the polarisation reverses the field
Reversed == LET o == FieldAt(Conf(kind, d, RAdd(pol, Pi), <<0, 0, 0>>), t, x)
            IN  VClose(o.e, VNeg(Here.e), 0, Tiny) \/ kind = "focusing"
\* on the axis the focused beam is the paraxial one up to the fourth order
Emit == PrintT(<<"CMD", kind, d, pol, x, t>>)
=============================================================================
