----------------------------- MODULE TraceCache -----------------------------
(* Recorded call sequences on one long-lived pipe or network.  The state     *)
(* tracks what the arguments contain and which resistances are in force; the *)
(* result of a query must be that of a new object (w), and that of any       *)
(* earlier query with the same contents.                                     *)
EXTENDS TraceBase
VARIABLES l, bad, fc, rc, res, seen
vars == <<l, bad, fc, rc, res, seen>>
Nothing == [x \in {} |-> <<>>]
Init == l = 1 /\ bad = <<>> /\ fc = Nothing /\ rc = Nothing /\ res = <<>> /\ seen = Nothing

Key(e) == <<e.m, fc[e.f], e.s, IF e.r = 0 THEN 0 ELSE rc[e.r], res>>
Clauses(e) ==
    IF e.ev = "Query" THEN
        [ AsNew |-> CloseSeq(e.v, e.w, 20),
          AsBefore |-> Key(e) \in DOMAIN seen => CloseSeq(e.v, seen[Key(e)], 20) ]
    ELSE IF e.ev = "Exc" THEN [ NoException |-> FALSE ]
    ELSE [ Known |-> e.ev \in {"Reset", "Start", "Flow", "Ratio", "Update", "Spoil"} ]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Step(e) ==
    IF e.ev = "Start" THEN /\ fc' = [o \in 1..e.nf |-> 1] /\ rc' = [o \in 1..e.nr |-> 1]
                           /\ res' = Const(e.np, 1) /\ seen' = Nothing
    ELSE IF e.ev = "Flow" THEN fc' = [fc EXCEPT ![e.o] = e.v] /\ UNCHANGED <<rc, res, seen>>
    ELSE IF e.ev = "Ratio" THEN rc' = [rc EXCEPT ![e.o] = e.v] /\ UNCHANGED <<fc, res, seen>>
    ELSE IF e.ev = "Update" THEN res' = [res EXCEPT ![e.p] = e.v] /\ UNCHANGED <<fc, rc, seen>>
    ELSE IF e.ev = "Query" THEN /\ seen' = IF Key(e) \in DOMAIN seen THEN seen ELSE Put(seen, Key(e), e.w)
                                /\ UNCHANGED <<fc, rc, res>>
    ELSE UNCHANGED <<fc, rc, res, seen>>
Next == /\ l <= NLines
        /\ Step(Trace[l])
        /\ bad' = AddAll(bad, l, Failing(Clauses(Trace[l])))
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
