------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* What a particle source yields.  Single particles are checked exactly    *)
(* where the configuration determines them; the random parts are checked   *)
(* as samples: every statistic below has a known mean and variance under   *)
(* the specified distribution and must lie within Z standard deviations.   *)
(***************************************************************************)
EXTENDS Motion, Statistics
LOCAL INSTANCE Sequences
LOCAL INSTANCE Integers
LOCAL INSTANCE TLC

Column(vs, k) == TLCEval([i \in 1..Len(vs) |-> vs[i][k]])
Scaled(s, mean, sd) == Map(LAMBDA v : RDiv(RSub(v, mean), sd), s)

\* ---------------------------------------------------------------- the beam
Dir(c) == [kind |-> "plane", dir |-> c.dir, half |-> "y"]
Local(c, v) == ToBeam(Dir(c), v)
Spots(c) == TLCEval([i \in 1..Len(c.x) |-> Local(c, VSub(c.x[i], c.pos))])
Heads(c) == TLCEval([i \in 1..Len(c.p) |-> Local(c, VNorm(c.p[i]))])

Kind(c) == CASE c.type \in {"photon", "Photon"} -> "Photon"
             [] c.type \in {"electron", "Electron"} -> "Electron"
             [] c.type \in {"positron", "Positron"} -> "Positron"
             [] OTHER -> "none"
Mass(c) == IF Kind(c) = "Photon" THEN 0 ELSE 1
Distro(c) == CASE c.distro \in {"mono", "Mono"} -> "mono"
               [] c.distro \in {"gaussian", "Gaussian"} -> "gaussian"
               [] OTHER -> "linear"
Size(c) == RAdd(VMag(c.pos), RAdd(c.dpos, c.dtau))
=============================================================================
