----------------------------- MODULE Reactions ------------------------------
(***************************************************************************)
(* The interactions as functions: what a particle does in a step when every *)
(* uniform draw has the value u.  A particle also has a name who, a weight  *)
(* w, an optical depth od and its track hist, rows <<clock, place,          *)
(* momentum>>.                                                             *)
(***************************************************************************)
EXTENDS Processes
LOCAL INSTANCE Sequences
LOCAL INSTANCE Integers

FreshDepth(u) == RNeg(RLn(RSub(1, u)))
MassOf(who) == IF who = "Photon" THEN 0 ELSE 1
ChargeOf(who) == CASE who = "Electron" -> -1 [] who = "Positron" -> 1 [] OTHER -> 0
Made(who, x, p, w, t, trk, u) ==
    [who |-> who, m |-> MassOf(who), q |-> ChargeOf(who), x |-> x, p |-> p, w |-> w, t |-> t, alive |-> TRUE,
     trk |-> trk, od |-> FreshDepth(u), hist |-> <<>>]
\* the primary of a source s that has nothing random
Primary(s, trk, u) == Made(s.who, s.x, VScale(RSqrt(RMax(RSub(RSq(s.e), RSq(MassOf(s.who))), RDec("0"))), VNorm(s.dir)), 1, RDec("0"), trk, u)
Recorded(p) == IF p.trk THEN [p EXCEPT !.hist = Append(@, <<p.t, p.x, p.p>>)] ELSE p
Idle(p) == [self |-> p, born |-> <<>>, lost |-> 0]
Emitted(c, p, k, w) == IF RLt(c.emin, k) THEN <<Made("Photon", p.x, VScale(k, VNorm(p.p)), w, p.t, c.track, c.u)>> ELSE <<>>

StochReact(c, p, F) ==
    LET left == RSub(p.od, LeptonDepth("stoch", c.dt, p, F))
    IN  IF ~RLt(left, 0) THEN Idle([p EXCEPT !.od = left])
        ELSE LET k == LeptonPhoton("stoch", p, F, c.u)
             IN  [self |-> Recorded([p EXCEPT !.p = VSub(@, VScale(k, VNorm(@))), !.od = FreshDepth(c.u)]),
                  born |-> IF RLt(c.u, c.frac) THEN Emitted(c, p, k, RDiv(p.w, c.frac)) ELSE <<>>, lost |-> 0]
ContReact(c, kind, p, F) ==
    IF RLt(c.frac, c.u) \/ REq(LeptonEta(p, F), 0) THEN Idle(p)
    ELSE [self |-> p, lost |-> 0,
          born |-> Emitted(c, p, LeptonPhoton(kind, p, F, c.u), RDiv(RMul(p.w, LeptonDepth(kind, c.dt, p, F)), c.frac))]
PairReact(c, p, F) ==
    LET chi == PhotonChi(p.p, F)
    IN  IF ~PairPossible(p, chi) THEN Idle(p)
        ELSE LET left == RSub(p.od, PairDepth(c.dt, chi, VMag(p.p)))
             IN  IF ~RLt(left, 0) THEN Idle([p EXCEPT !.od = left])
                 ELSE LET s == Shares(VMag(p.p), SplitAt(chi, c.u))
                          L(who, e) == Made(who, p.x, LeptonMomentum(e, VNorm(p.p)), p.w, p.t, c.track, c.u)
                      IN  [self |-> [p EXCEPT !.alive = FALSE, !.od = left], lost |-> 0,
                           born |-> <<L("Positron", s[1]), L("Electron", s[2])>>]
\* the model names its motion and its emission
PusherOf(model) == CASE model = "Classical" -> "landau" [] model = "Semiclassical" -> "modified" [] model = "Quantum" -> "lorentz"
Reaction(c, p) ==
    LET F == FieldAt(c.field, p.t, p.x)
    IN  IF Massless(p) THEN IF c.pair THEN PairReact(c, p, F) ELSE Idle(p)
        ELSE CASE c.model = "Quantum" -> StochReact(c, p, F)
               [] c.model = "Semiclassical" -> ContReact(c, "cont", p, F)
               [] c.model = "Classical" -> ContReact(c, "classic", p, F)
Step(c, p) == LET s == Moved(PusherOf(c.model), c.field, c.dt, p) IN Recorded([p EXCEPT !.x = s.x, !.p = s.p, !.t = s.t])
=============================================================================
