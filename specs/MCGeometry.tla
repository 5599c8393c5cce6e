----------------------------- MODULE MCGeometry -----------------------------
(* The verification of a geometry of U-tubes, test by test, for all          *)
(* placements of pipes on a lattice; discs fit exactly when no lattice point *)
(* of a fine grid is covered twice or lies outside (for odd radii that grid  *)
(* decides it).                                                              *)
EXTENDS Geometry, TLC, Json
CONSTANTS W, NP, RO, RB, Mut, Gen
VARIABLES pos, i, j, verdict
vars == <<pos, i, j, verdict>>
Lattice == (0 - W)..W
Init == /\ pos \in [1..NP -> Lattice \X Lattice]
        /\ i = 1 /\ j = 2 /\ verdict = "inside"
\* in half units
Geo == [kind |-> "u", pos |-> [k \in 1..NP |-> <<2 * pos[k][1], 2 * pos[k][2]>>], ri |-> <<1>>, ro |-> <<2 * RO>>, rb |-> 2 * RB, ks |-> 1, kg |-> 1, Rfp |-> 1, Rff |-> 0, J |-> 0]
InsideStep ==
    /\ verdict = "inside"
    /\ IF i > (IF Mut = "inlets" THEN NP \div 2 ELSE NP) THEN verdict' = "apart" /\ i' = 1 /\ UNCHANGED <<pos, j>>
       ELSE IF (IF Mut = "centers" THEN Sq(pos[i][1]) + Sq(pos[i][2]) <= Sq(RB)
                ELSE IF Mut = "strict" THEN Sq(pos[i][1]) + Sq(pos[i][2]) < Sq(RB - RO)
                ELSE IF Mut = "box" THEN Abs(pos[i][1]) + RO <= RB /\ Abs(pos[i][2]) + RO <= RB
                ELSE Inside(pos[i], RO, RB))
            THEN i' = i + 1 /\ UNCHANGED <<pos, j, verdict>>
            ELSE verdict' = "reject" /\ UNCHANGED <<pos, i, j>>
ApartStep ==
    /\ verdict = "apart"
    /\ IF i >= NP THEN verdict' = "accept" /\ UNCHANGED <<pos, i, j>>
       ELSE IF j > (IF Mut = "neighbours" THEN Min2(i + 1, NP) ELSE NP)
            THEN i' = i + 1 /\ j' = i + 2 /\ UNCHANGED <<pos, verdict>>
       ELSE IF (IF Mut = "touch" THEN Sq(pos[i][1] - pos[j][1]) + Sq(pos[i][2] - pos[j][2]) > Sq(2 * RO)
                ELSE Apart(pos[i], pos[j], RO))
            THEN j' = j + 1 /\ UNCHANGED <<pos, i, verdict>>
            ELSE verdict' = "reject" /\ UNCHANGED <<pos, i, j>>
Next == InsideStep \/ ApartStep
Spec == Init /\ [][Next]_vars
Agree == /\ verdict = "accept" => Accept(Geo)
         /\ verdict = "reject" => ~Accept(Geo)
\* physical meaning: a grid point strictly inside a pipe is in the borehole and in no other pipe
Grid == (0 - RB - W)..(RB + W)
Covers(p, x, y) == Sq(x - p[1]) + Sq(y - p[2]) < Sq(RO)
Physical == verdict = "accept" /\ NP = 2 =>
    \A x \in Grid, y \in Grid :
        /\ Cardinality({k \in 1..NP : Covers(pos[k], x, y)}) <= 1
        /\ (\E k \in 1..NP : Covers(pos[k], x, y)) => Sq(x) + Sq(y) <= Sq(RB)
\* the verdict does not depend on the order or orientation of the pipes
Turn(p) == <<0 - p[2], p[1]>>
Symmetric == verdict = "inside" /\ i = 1 =>
    /\ Accept(Geo) = Accept([Geo EXCEPT !.pos = Rev(@)])
    /\ Accept(Geo) = Accept([Geo EXCEPT !.pos = [k \in 1..NP |-> Turn(@[k])]])
Emit == Gen /\ verdict = "inside" /\ i = 1 => PrintT("BEH " \o ToJson(pos))
=============================================================================
