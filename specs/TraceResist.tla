---------------------------- MODULE TraceResist -----------------------------
(* Recorded constructions, updates and direct calls in one process.  ref     *)
(* holds the results of fresh processes for every (geometry, resistance).    *)
EXTENDS TraceBase
VARIABLES l, bad, par, ref
vars == <<l, bad, par, ref>>
Nothing == [x \in {} |-> <<>>]
Init == l = 1 /\ bad = <<>> /\ par = Nothing /\ ref = Nothing
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Clauses(e) ==
    IF e.ev = "Query" THEN
        [ Own |-> CloseSeq(e.v, ref[<<par[e.o][1], par[e.o][2], "obj">>], 40) ]
    ELSE IF e.ev = "Call" THEN
        [ Direct |-> CloseSeq(e.v, ref[<<e.g, e.r, "call">>], 40) ]
    ELSE IF e.ev = "Exc" THEN [ NoException |-> FALSE ]
    ELSE [ Known |-> e.ev \in {"Reset", "Ref", "New", "Update", "Spoil"} ]
Step(e) ==
    IF e.ev = "Reset" THEN par' = Nothing /\ ref' = Nothing
    ELSE IF e.ev = "Ref" THEN ref' = Put(ref, <<e.g, e.r, e.what>>, e.v) /\ UNCHANGED par
    ELSE IF e.ev = "New" THEN par' = Put(par, e.o, <<e.g, e.r>>) /\ UNCHANGED ref
    ELSE IF e.ev = "Update" THEN par' = Put(par, e.o, <<par[e.o][1], e.r>>) /\ UNCHANGED ref
    ELSE UNCHANGED <<par, ref>>
Next == /\ l <= NLines
        /\ Step(Trace[l])
        /\ bad' = AddAll(bad, l, Failing(Clauses(Trace[l])))
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
