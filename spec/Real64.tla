------------------------------- MODULE Real64 -------------------------------
(***************************************************************************)
(* Real numbers as the simulation has them.  A real is either a TLA+       *)
(* integer or an IEEE-754 double written as the pair <<high, low>> of its  *)
(* two 32-bit halves, which is how the harness logs every double (no digit *)
(* is lost between the C++ code and TLC, whose integers are 32-bit).       *)
(* The operators are evaluated by /verif/java/Real64.java; the bodies      *)
(* below only give them an arity and stand for the real operation named in *)
(* the comment.                                                            *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Stub(x) == CHOOSE r \in {x} : TRUE

RDec(s)    == Stub(s)          \* the real denoted by the decimal literal s
RStr(a)    == Stub(a)          \* decimal text of a, for reports
RAdd(a, b) == Stub(<<a, b>>)   \* a + b
RSub(a, b) == Stub(<<a, b>>)   \* a - b
RMul(a, b) == Stub(<<a, b>>)   \* a * b
RDiv(a, b) == Stub(<<a, b>>)   \* a / b
RNeg(a)    == Stub(a)          \* -a
RAbs(a)    == Stub(a)          \* |a|
RSqrt(a)   == Stub(a)
RExp(a)    == Stub(a)
RLn(a)     == Stub(a)
RLog10(a)  == Stub(a)
RPow(a, b) == Stub(<<a, b>>)   \* a to the power b
RSin(a)    == Stub(a)
RCos(a)    == Stub(a)
RAtan(a)   == Stub(a)
RBesselK(nu, a)     == Stub(<<nu, a>>)   \* modified Bessel function of the second kind
RBesselKTail(nu, a) == Stub(<<nu, a>>)   \* its integral from a to infinity
RFloor(a)  == Stub(a)          \* the integer floor(a)
RLt(a, b)  == Stub(a = b)      \* a < b   (FALSE if either is not a number)
RLe(a, b)  == Stub(a = b)      \* a <= b
REq(a, b)  == Stub(a = b)      \* a = b
RFinite(a) == Stub(a = a)      \* neither infinite nor not-a-number
RSame(a, b) == Stub(a = b)     \* a = b, or both are not-a-number

\* |a - b| <= abs + rel * max(|a|, |b|)
RClose(a, b, rel, abs) == Stub(a = b)

RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RSq(a)     == RMul(a, a)
RHalf(a)   == RDiv(a, 2)

\* 0 + s[1] + s[2] + ...
RECURSIVE RSumTo(_, _)
RSumTo(s, n) == IF n = 0 THEN 0 ELSE RAdd(RSumTo(s, n - 1), s[n])
RSum(s) == RSumTo(s, Len(s))
\* s[1]*t[1] + ... + s[n]*t[n]
RDot(s, t) == RSum([i \in 1..Len(s) |-> RMul(s[i], t[i])])
=============================================================================
