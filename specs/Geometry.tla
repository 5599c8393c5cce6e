------------------------------ MODULE Geometry ------------------------------
(* Pipes in a borehole.  Lengths are integers (units of 2^-10 m, so that the *)
(* code's floating point arithmetic is exact).  A geometry is a record       *)
(*   kind: "u" (U-tubes) or "coax", pos: positions, ri, ro: radii (sequences *)
(*   of one, or two for coaxial pipes), rb: borehole radius, ks, kg, Rfp,    *)
(*   Rff, J: properties, of which only the sign matters; NaN is not a number.*)
EXTENDS Common

Sq(x) == x * x
Real(x) == x # NaN
Pos(x) == Real(x) /\ x > 0
\* a disc of radius r at p lies in the borehole
Inside(p, r, rb) == rb >= r /\ Sq(p[1]) + Sq(p[2]) <= Sq(rb - r)
Apart(p, q, r) == Sq(p[1] - q[1]) + Sq(p[2] - q[2]) >= Sq(2 * r)
Properties(g) == Pos(g.ks) /\ Pos(g.kg) /\ Pos(g.Rfp) /\ g.J >= 0

AcceptU(g) == /\ Properties(g)
              /\ Pos(g.ri[1]) /\ g.ro[1] > g.ri[1]
              /\ \A i \in 1..Len(g.pos) : Inside(g.pos[i], g.ro[1], g.rb)
              /\ \A i, j \in 1..Len(g.pos) : i < j => Apart(g.pos[i], g.pos[j], g.ro[1])
\* the pipe of smaller outer radius is the inner one
AcceptC(g) == LET in == IF g.ro[1] <= g.ro[2] THEN 1 ELSE 2
                  out == 3 - in
              IN /\ Properties(g) /\ Real(g.Rff) /\ g.Rff >= 0
                 /\ \A k \in 1..2 : Pos(g.ri[k]) /\ g.ro[k] > g.ri[k]
                 /\ g.ri[out] > g.ro[in]
                 /\ \A i \in 1..Len(g.pos) : Inside(g.pos[i], g.ro[out], g.rb)
Accept(g) == IF g.kind = "coax" THEN AcceptC(g) ELSE AcceptU(g)
=============================================================================
