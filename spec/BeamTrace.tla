----------------------------- MODULE BeamTrace ------------------------------
(***************************************************************************)
(* From input file to beam: the primaries that the program lists in its     *)
(* output file are the beams that the file asks for (the file is read by    *)
(* Input, the beam is judged as those of a particle source are).            *)
(***************************************************************************)
EXTENDS Input, SourceTrace
Ref == ndJsonDeserialize(IOEnv.REF)[1]
Column8(rows, k) == TLCEval([i \in 1..Len(rows) |-> rows[i][k]])
Beam(s, rows) ==
    [type |-> s.who, distro |-> s.distro, num |-> s.num, e1 |-> s.e, e2 |-> s.esig, dpos |-> s.radius, dtau |-> s.tau, ddir |-> s.div,
     pos |-> s.x, dir |-> s.dir, en |-> Column8(rows, 2),
     p |-> TLCEval([i \in 1..Len(rows) |-> <<rows[i][3], rows[i][4], rows[i][5]>>]), x |-> TLCEval([i \in 1..Len(rows) |-> <<rows[i][6], rows[i][7], rows[i][8]>>])]
BeamBroken(s, rows) ==
    IF Len(rows) # s.num THEN "number of particles"
    ELSE LET b == TLCEval(Beam(s, rows))
         IN  FirstBroken(<<
            <<"kind (mass) and energies", Energies([b EXCEPT !.en = @] @@ [m |-> [i \in Idx(b) |-> Mass(b)]])>>,
            <<"energy distribution", EnergySpread(b)>>, <<"place", Placed(b)>>, <<"direction", Headed(b)>>,
            <<"independent draws", Len(rows) > 100 => Independent(b)>> >>)
RECURSIVE BeamsBroken(_, _, _, _)
BeamsBroken(e, src, i, k) ==
    IF i > Len(src) THEN (IF k = Len(e.src) THEN "" ELSE "number of groups")
    ELSE IF ~src[i].out THEN BeamsBroken(e, src, i + 1, k)
    ELSE IF k >= Len(e.src) THEN "number of groups"
    ELSE LET b == BeamBroken(src[i], e.src[k + 1].prim) IN IF b # "" THEN b ELSE BeamsBroken(e, src, i + 1, k + 1)
BeamVerdict(e) == IF e.status # 0 THEN "refuses a valid file" ELSE BeamsBroken(e, Settings(Read(e.lines), Ref).src, 1, 0)
=============================================================================
