---------------------------- MODULE TraceLoadAgg ----------------------------
(* Recorded simulations against LoadAgg.  ss: the state of every source;     *)
(* dg: the current response factor increments.                               *)
EXTENDS TraceBase, LoadAgg, TimeGrid
VARIABLES l, bad, ss, dg, cf
vars == <<l, bad, ss, dg, cf>>
Init == l = 1 /\ bad = <<>> /\ ss = <<>> /\ dg = <<>> /\ cf = [probe |-> TRUE, tol |-> 0]

Cells(e) == IF e.kind = "CJ" THEN Grid("CJ", e.cpl, e.end)
            ELSE Const((e.end + 999) \div 1000, 1)
Fresh(e) == IF e.kind = "CJ" THEN NewCJ(Cells(e)) ELSE IF e.kind = "MLAA" THEN NewMLAA(e.par) ELSE NewLiu(e.par)

\* superposition of the aggregated loads with the increments
Superpose(i) ==
    LET L(j) == Lags(ss[j])
        Term(j) == LET lj == L(j) IN SumSeq([t \in 1..Len(lj) |-> dg[i][j][t] * lj[t]])
    IN  SumSeq([j \in 1..Len(ss) |-> Term(j)])
Pad(x, n) == x \o Const(n - Len(x), 0)
Expected(e) ==
    IF cf.probe THEN Pad(Lags(ss[1]), Len(e.T))
    ELSE [i \in 1..Len(ss) |-> Superpose(i)]

Clauses(e) ==
    IF e.ev = "New" THEN
        LET ends == Ends(Cells(e)) IN
        [ TimesAreCells |-> CloseSeq(e.times, [i \in 1..Len(ends) |-> 1000 * ends[i]], 1) ]
    ELSE IF e.ev = "Query" THEN
        [ Superposition |-> CloseSeq(e.T, Expected(e), cf.tol),
          \* a value per source unless the factors have no sources
          Form |-> "shape" \in DOMAIN e => e.shape = IF e.flat THEN <<>> ELSE <<Len(ss)>> ]
    ELSE IF e.ev = "Incr" THEN
        [ Increments |-> CloseMat(e.inc, e.want, 2) ]
    ELSE IF e.ev = "Exc" THEN [ NoException |-> FALSE ]
    ELSE [ Known |-> e.ev \in {"Reset", "Adv", "Set", "Init"} ]

Step(e) ==
    /\ ss' = IF e.ev = "New" THEN [j \in 1..e.ns |-> Fresh(e)]
             ELSE IF e.ev = "Adv" THEN [j \in 1..Len(ss) |-> Advance(ss[j])]
             ELSE IF e.ev = "Set" THEN [j \in 1..Len(ss) |-> SetLoad(ss[j], e.q[j])]
             ELSE ss
    /\ dg' = IF e.ev = "Init" THEN e.dg ELSE dg
    /\ cf' = IF e.ev = "New" THEN [probe |-> e.probe, tol |-> e.tol] ELSE cf

Next == /\ l <= NLines
        /\ LET e == Trace[l] IN
             /\ Step(e)
             /\ bad' = AddAll(bad, l, Failing(Clauses(e)))
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
