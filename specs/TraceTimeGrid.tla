---------------------------- MODULE TraceTimeGrid ---------------------------
(* Recorded time grids, in 1/1000 time steps.                                *)
EXTENDS TraceBase, TimeGrid
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
\* cumulative sums without recursion on subsequences
RECURSIVE Cum(_, _, _, _)
Cum(ws, i, t, r) == IF i > Len(ws) THEN r ELSE Cum(ws, i + 1, t + ws[i], Append(r, 1000 * (t + ws[i])))
Clauses(e) ==
    IF e.ev = "Grid" THEN
      LET w == Cum(Grid(e.kind, e.p, e.tmax), 1, 0, <<>>) IN
      [ Number |-> Len(e.t) = Len(w),
        Times |-> e.t = w,
        Reaches |-> Len(e.t) > 0 => e.t[Len(e.t)] >= e.tmax,
        Increasing |-> IsIncreasing(<<0>> \o e.t) ]
    ELSE IF e.ev = "Far" THEN
      \* logarithms of the widths (1/1000 powers of two), and the last two times over the maximum time (10^8)
      LET p == e.p IN
      [ Double |-> \A i \in 1..Len(e.x) : e.x[i] = 1000 * (IF e.kind = "CJ" THEN (i + p - 1) \div p - 1
                                                            ELSE IF i <= p THEN 0 ELSE i - p),
        Reaches |-> e.end[1] <= 100000000 /\ e.end[2] >= 100000000 ]
    ELSE IF e.ev = "Geo" THEN
      \* times over the maximum time (10^8), the time step in the same unit, quotients of widths (10^7)
      LET n == Len(e.t) IN
      [ Number |-> n = e.n,
        First |-> e.n > 1 /\ n > 0 => Close(e.t[1], e.dt, 2),
        Last |-> n > 0 => IF e.expands THEN e.t[n] = 100000000 ELSE e.t[n] >= 100000000,
        Increasing |-> IsIncreasing(<<0>> \o e.t),
        Expansion |-> Len(e.q) = n - 1 /\ \A k \in 1..Len(e.q) : Close(e.q[k], e.q[1], e.tol),
        Uniform |-> ~e.expands => \A k \in 1..Len(e.q) : Close(e.q[k], 10000000, 20) ]
    ELSE IF e.ev = "Exc" THEN [ NoException |-> FALSE ]
    ELSE [ Known |-> e.ev = "Reset" ]
Next == /\ l <= NLines
        /\ bad' = AddAll(bad, l, Failing(Clauses(Trace[l])))
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
