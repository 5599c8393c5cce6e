---------------------------- MODULE TraceLayouts ----------------------------
(* Recorded fields.  Positions in 1/1000 of the lattice unit, directions of  *)
(* lean as vectors of length 10000 in lattice units (or zero).               *)
EXTENDS TraceBase, Layouts
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
Origin(e) == IF e.origin = <<>> THEN Center(e.kind, e.n, e.m, e.last) ELSE e.origin
At(p, q) == Close(p[1], 1000 * q[1], 1) /\ Close(p[2], 1000 * q[2], 1)
Zero(u) == u[1] = 0 /\ u[2] = 0
\* u is in the direction of r
Along(u, r) == LET c == u[1] * r[2] - u[2] * r[1]
                   s == Max2(Abs(r[1]), Abs(r[2])) * Max2(Abs(u[1]), Abs(u[2])) IN
               u[1] * r[1] + u[2] * r[2] > 0 /\ Abs(c) <= s \div 500
Away(e, p, u) ==
    LET o == Origin(e)  r == <<Pos(p)[1] - o[1], Pos(p)[2] - o[2]>> IN
    IF e.tilt = 0 THEN Zero(u)
    ELSE IF Zero(r) THEN IF e.off = 2 THEN Along(u, <<0 - 1, 0>>) ELSE Zero(u)
    ELSE IF e.off = 0 THEN Along(u, r) ELSE ~Zero(u)
Same(e) == \A k \in 1..Len(e.dims) : e.dims[k] = 1
Lattice(e) ==
    LET want == Field(e.kind, e.n, e.m, e.last)  N == Len(want) IN
    [ Number |-> Len(e.pos) = Count(e.kind, e.n, e.m, e.last),
      Placed |-> /\ Len(e.pos) = N
                 /\ IF e.ordered THEN \A k \in 1..N : At(e.pos[k], Pos(want[k]))
                    ELSE \A k \in 1..N : \E q \in 1..N : At(e.pos[q], Pos(want[k])),
      Dimensions |-> Same(e),
      Leaning |-> Len(e.pos) = N =>
          \A k \in 1..N : \A q \in 1..N : At(e.pos[q], Pos(want[k])) => Away(e, want[k], e.lean[q]),
      Tilted |-> \A k \in 1..Len(e.pos) : e.tilts[k] = (IF Zero(e.lean[k]) THEN 0 ELSE e.tilt) ]
Cross(p, q) == p[1] * q[2] - p[2] * q[1]
Dot(p, q) == p[1] * q[1] + p[2] * q[2]
\* a regular polygon of N corners on a circle of radius 10000, once around
Circle(e) ==
    LET N == e.n  P == e.pos  nx(k) == P[(k % N) + 1] IN
    [ Number |-> Len(P) = N,
      Placed |-> Len(P) = N =>
        /\ Close(P[1][1], 10000, 2) /\ Close(P[1][2], 0, 2)
        /\ \A k \in 1..N :
             /\ Abs(Dot(P[k], P[k]) - 100000000) <= 30000
             /\ Abs(Cross(P[k], nx(k)) - Cross(P[1], nx(1))) <= 60000
             /\ Abs(Dot(P[k], nx(k)) - Dot(P[1], nx(1))) <= 60000
             /\ N > 2 => Cross(P[k], nx(k)) > 0
             /\ N > 1 => Abs(P[k][1] - nx(k)[1]) + Abs(P[k][2] - nx(k)[2]) > 10
        /\ N > 1 => Cardinality({k \in 1..N : P[k][2] < 0 - 5 /\ nx(k)[2] >= 0 - 5}) <= 1,
      Dimensions |-> Same(e),
      Leaning |-> \A k \in 1..Len(P) :
          IF e.tilt = 0 THEN Zero(e.lean[k])
          ELSE LET r == <<P[k][1] - e.origin[1], P[k][2] - e.origin[2]>> IN
               IF Abs(r[1]) + Abs(r[2]) <= 4 THEN Zero(e.lean[k]) ELSE Along(e.lean[k], r),
      Tilted |-> \A k \in 1..Len(P) : e.tilts[k] = (IF Zero(e.lean[k]) THEN 0 ELSE e.tilt) ]
\* cosines of sixteenths of a turn
Cos16 == LET c == <<10000, 9239, 7071, 3827, 0>> IN
         [k \in 1..16 |-> LET a == Apart(k - 1, 0) IN IF a <= 4 THEN c[a + 1] ELSE 0 - c[9 - a]]
Clauses(e) ==
    IF e.ev = "Lattice" THEN Lattice(e)
    ELSE IF e.ev = "Circle" THEN Circle(e)
    ELSE IF e.ev = "Wind" THEN
        [ Known |-> (e.w \in Winds) = (e.err = "") /\ e.err \in {"", "ValueError"},
          \* the angle in sixteenths of a turn, and the way a borehole leans
          Angle |-> e.w \in Winds /\ e.err = "" => (e.angle + 16000000) % 16000000 = 1000000 * Wind(e.w),
          Leans |-> e.w \in Winds /\ e.err = "" => LET a == Wind(e.w) IN
              /\ Close(e.lean[1], Cos16[a + 1], 2) /\ Close(e.lean[2], Cos16[((a + 12) % 16) + 1], 2) ]
    ELSE IF e.ev = "Exc" THEN [ NoException |-> FALSE ]
    ELSE [ Known |-> e.ev = "Reset" ]
Next == /\ l <= NLines
        /\ bad' = AddAll(bad, l, Failing(Clauses(Trace[l])))
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
