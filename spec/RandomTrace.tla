----------------------------- MODULE RandomTrace ----------------------------
EXTENDS Statistics, Observed

\* state of the generator before event i: the last seed and the calls since it
RECURSIVE Before(_, _)
Before(ev, i) == IF i = 1 THEN <<>>
                 ELSE IF ev[i-1].k = "seed" THEN <<"seed", ev[i-1].s>>
                 ELSE Append(Before(ev, i - 1), ev[i-1].call)
Known(ev, i) == \E j \in 1..(i - 1) : ev[j].k = "seed"
Reproducible(ev) == \A i, j \in 1..Len(ev) :
    (i < j /\ ev[i].k = "call" /\ ev[j].k = "call" /\ ev[i].call = ev[j].call /\ Known(ev, i)
      /\ Before(ev, i) = Before(ev, j)) => ev[i].v = ev[j].v
\* after different seeds, or later in one stream, continuous values differ
Continuous(e) == e.k = "call" /\ e.call \in {"uniform 0 1", "normal 3 0.5", "depth", "uniforms -2 5 3"}
\* calls that use up one value of the stream each, so that a later call uses a
\* later value (a normal value may skip some, and so meet an earlier one)
OneDraw(e) == e.call \in {"uniform 0 1", "depth"}
Prefix(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
Varied(ev) == \A i, j \in 1..Len(ev) :
    (i # j /\ Continuous(ev[i]) /\ Continuous(ev[j]) /\ ev[i].call = ev[j].call)
      => LET a == Before(ev, i)  b == Before(ev, j)
         IN  (a = <<>> \/ b = <<>> \/ a[2] # b[2] \/ (OneDraw(ev[i]) /\ Prefix(a, b))) => (a # b => ev[i].v # ev[j].v)

Disjoint(s) == \A i, j \in 1..Len(s) : i < j => \A a \in 1..Len(s[i]), b \in 1..Len(s[j]) : s[i][a] # s[j][b]

Verdict(e) ==
    CASE e.op = "uniform" -> FirstBroken(<<
            <<"support", \A i \in 1..Len(e.s) : RLe(e.a, e.s[i]) /\ RLe(e.s[i], e.b)>>,
            <<"uniform distribution", Uniform01(Map(LAMBDA v : RDiv(RSub(v, e.a), RSub(e.b, e.a)), e.s))>> >>)
      [] e.op = "normal" -> FirstBroken(<<
            <<"normal distribution", StandardNormal(Map(LAMBDA v : RDiv(RSub(v, e.a), e.b), e.s))>> >>)
      [] e.op = "poisson" -> FirstBroken(<< <<"poisson distribution", Poisson(e.s, e.mean)>> >>)
      [] e.op = "discrete" -> FirstBroken(<< <<"discrete distribution", Discrete(e.s, e.w)>> >>)
      [] e.op = "depth" -> FirstBroken(<< <<"exponential optical depth", Exponential(e.s) /\ \A i \in 1..Len(e.s) : RLt(0, e.s[i])>> >>)
      [] e.op = "bounds" -> FirstBroken(<< <<"within bounds", \A i \in 1..Len(e.s) : RLe(e.lo, e.s[i]) /\ RLe(e.s[i], e.hi)>> >>)
      [] e.op = "depthbounds" -> FirstBroken(<< <<"not negative, finite", \A i \in 1..Len(e.s) : RLe(0, e.s[i]) /\ RFinite(e.s[i])>> >>)
      [] e.op = "history" -> FirstBroken(<<
            <<"the same seed and calls give the same values", Reproducible(e.ev)>>,
            <<"other seeds and later calls give other values", Varied(e.ev)>> >>)
      [] e.op = "streams" -> FirstBroken(<< <<"streams differ", Disjoint(e.s)>> >>)
      [] OTHER -> "unexpected event " \o e.op
=============================================================================
