---------------------------- MODULE TraceSimilar -----------------------------
(* Solutions of one field by several methods.  The first one, of the solver  *)
(* without approximations, is the abstract state with distances and          *)
(* dimensions of boreholes; others must agree with it if they only merged    *)
(* what is truly alike.                                                      *)
EXTENDS TraceBase, Groups
VARIABLES l, bad, s, f
vars == <<l, bad, s, f>>
Init == l = 1 /\ bad = <<>> /\ s = [g |-> <<>>] /\ f = [n |-> 0]
Clauses(e) ==
    CASE e.ev = "Field" -> [ Field |-> Len(e.d) = e.n /\ Len(e.dim) = e.n ]
      [] e.ev = "Base" -> [ Shape |-> Len(e.q) = f.n /\ Len(e.t) = f.n ]
      [] e.ev = "Other" ->
         IF Len(e.grp) # f.n \/ Len(s.g) = 0 THEN [ Shape |-> FALSE ]
         ELSE LET ok == Symmetric(f.d, e.grp) IN
         [ Dimensions |-> \A i, j \in 1..f.n : e.grp[i] = e.grp[j] => f.dim[i] = f.dim[j],
           GFunction |-> ok => CloseSeq(e.g, s.g, e.tol),
           HeatRates |-> ok => CloseMat(e.q, s.q, e.tol),
           Temperatures |-> ok => CloseMat(e.t, s.t, e.tol),
           RateProfiles |-> ok => CloseMat(e.sq, s.sq, e.tol),
           TemperatureProfiles |-> ok => CloseMat(e.st, s.st, e.tol) ]
      [] e.ev = "Exc" -> [ NoException |-> FALSE ]
      [] OTHER -> [ Known |-> e.ev = "Reset" ]
Next == /\ l <= NLines
        /\ LET e == Trace[l] IN
           /\ bad' = AddAll(bad, l, Failing(Clauses(e)))
           /\ s' = IF e.ev = "Base" THEN e ELSE IF e.ev = "Reset" THEN [g |-> <<>>] ELSE s
           /\ f' = IF e.ev = "Field" THEN e ELSE IF e.ev = "Reset" THEN [n |-> 0] ELSE f
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
