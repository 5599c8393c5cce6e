----------------------------- MODULE TraceCases -----------------------------
(* Cases stated to the real code, with the values of the case they stand for *)
(* (e.mg: stated in full, with flows by circuit and every option).           *)
EXTENDS TraceBase, Cases
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
Tol(e) == IF e.single THEN 5000 ELSE 30
Stated(e) ==
    IF ~Legal([e.c EXCEPT !.opts = Range(@)], e.n) THEN [ Rejected |-> e.err # "", Kept |-> e.kept ]
    ELSE [ Accepted |-> e.err = "", Manual |-> e.merr = "",
           SameG |-> e.err = "" /\ e.merr = "" => CloseSeq(e.g, e.mg, Tol(e)),
           SameShape |-> e.err = "" /\ e.merr = "" => e.shape = e.mshape,
           SamePrecision |-> e.err = "" /\ e.merr = "" => e.bytes = e.mbytes,
           \* progress is reported when it is asked for only
           Silent |-> e.err = "" => e.said = e.disp,
           Kept |-> e.kept ]
Clauses(e) ==
    CASE e.ev = "Stated" -> Stated(e)
      [] e.ev = "Exc" -> [ NoException |-> FALSE ]
      [] OTHER -> [ Known |-> e.ev = "Reset" ]
Next == /\ l <= NLines
        /\ bad' = AddAll(bad, l, Failing(Clauses(Trace[l])))
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
