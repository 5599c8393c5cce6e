---------------------------- MODULE TraceStatic -----------------------------
(* Creations from parameters, with the responses of the model assembled      *)
(* according to Static (e.mg, e.mnet) when the parameters are legal.         *)
EXTENDS TraceBase, Static
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
Cfg(e) == [e.c EXCEPT !.miss = Range(@)]
Net(e) == [ Accepted |-> e.err = "", Manual |-> e.merr = "",
            SameNetwork |-> e.err = "" /\ e.merr = "" => CloseMat(e.net, e.mnet, 30) ]
Create(e) ==
    LET ok == Legal(Cfg(e)) IN
    IF ~ok THEN [ Rejected |-> e.err # "" ]
    ELSE [ Accepted |-> e.err = "", Manual |-> e.merr = "",
           SameG |-> e.err = "" /\ e.merr = "" => CloseSeq(e.g, e.mg, 30),
           SameShape |-> e.err = "" /\ e.merr = "" => e.shape = e.mshape ]
NetC(e) == IF ~Legal([Cfg(e) EXCEPT !.bc = "MIFT"]) THEN [ Rejected |-> e.err # "" ] ELSE Net(e)
Clauses(e) ==
    CASE e.ev = "Create" -> Create(e)
      [] e.ev = "Network" -> NetC(e)
      [] e.ev = "Exc" -> [ NoException |-> FALSE ]
      [] OTHER -> [ Known |-> e.ev = "Reset" ]
Next == /\ l <= NLines
        /\ bad' = AddAll(bad, l, Failing(Clauses(Trace[l])))
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
