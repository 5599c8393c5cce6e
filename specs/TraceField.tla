----------------------------- MODULE TraceField ------------------------------
(* Recorded solutions of fields under exchanges and motions of boreholes.    *)
(* q[i], t[i] are the heat extraction rates and wall temperatures of the     *)
(* i-th borehole at all times (in units of the harness), g the g-function,   *)
(* sq[i], st[i] those of its segments at one time.  The abstract state is    *)
(* the last solution and the boreholes and feeds of the field.               *)
EXTENDS TraceBase, Fields
VARIABLES l, bad, s, org, con
vars == <<l, bad, s, org, con>>
Empty == [g |-> <<>>, q |-> <<>>, t |-> <<>>, sq |-> <<>>, st |-> <<>>]
Init == l = 1 /\ bad = <<>> /\ s = Empty /\ org = <<>> /\ con = <<>>
Of(e) == [g |-> e.g, q |-> e.q, t |-> e.t, sq |-> e.sq, st |-> e.st]
Exchanged(x, e) == [x EXCEPT !.q = SwapAt(x.q, e.i, e.j), !.t = SwapAt(x.t, e.i, e.j),
                             !.sq = SwapAt(x.sq, e.i, e.j), !.st = SwapAt(x.st, e.i, e.j)]
Want(e) == IF e.op = "swap" THEN Exchanged(s, e) ELSE s
Org(e) == IF e.op = "swap" THEN SwapAt(org, e.i, e.j) ELSE org
Con(e) == IF e.op = "swap" THEN Renamed(con, e.i, e.j) ELSE con
Shape(e, n) == Len(e.q) = n /\ Len(e.t) = n /\ Len(e.sq) = n /\ Len(e.st) = n
Clauses(e) ==
    CASE e.ev = "Start" -> [ Shape |-> Shape(e, e.n) ]
      [] e.ev = "Op" ->
         IF ~Shape(e, Len(org)) \/ Len(s.q) # Len(org) THEN [ Shape |-> FALSE ]
         ELSE LET w == Want(e) IN
         [ \* the harness exchanged boreholes as specified
           Harness |-> e.org = Org(e) /\ e.con = Con(e),
           GFunction |-> CloseSeq(e.g, w.g, e.tol),
           HeatRates |-> CloseMat(e.q, w.q, e.tol),
           Temperatures |-> CloseMat(e.t, w.t, e.tol),
           RateProfiles |-> CloseMat(e.sq, w.sq, e.tol),
           TemperatureProfiles |-> CloseMat(e.st, w.st, e.tol) ]
      [] e.ev = "Exc" -> [ NoException |-> FALSE ]
      [] OTHER -> [ Known |-> e.ev = "Reset" ]
Next == /\ l <= NLines
        /\ LET e == Trace[l] IN
           /\ bad' = AddAll(bad, l, Failing(Clauses(e)))
           /\ s' = IF e.ev \in {"Start", "Op"} THEN Of(e) ELSE s
           /\ org' = CASE e.ev = "Start" -> e.org [] e.ev = "Op" -> Org(e) [] OTHER -> org
           /\ con' = CASE e.ev = "Start" -> e.con [] e.ev = "Op" -> Con(e) [] OTHER -> con
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
