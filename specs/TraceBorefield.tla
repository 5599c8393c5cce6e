--------------------------- MODULE TraceBorefield ---------------------------
(* Recorded programs on borefields.  Every event carries the contents of all *)
(* slots after the operation, as numbers of boreholes (0: unknown borehole). *)
EXTENDS TraceBase, Borefield
VARIABLES l, v, bad
vars == <<l, v, bad>>
Init == l = 1 /\ v = <<>> /\ bad = <<>>
Next2(e) == IF e.ev = "Start" THEN e.snap
            ELSE IF e.ev = "Op" /\ e.o.op \in Makes THEN [v EXCEPT ![e.o.d] = Value(v, e.o)]
            ELSE IF e.ev = "Reset" THEN <<>> ELSE v
\* a deviation is reported once: the state is that of the code after it
Follow(e) == IF e.ev = "Op" THEN e.snap ELSE Next2(e)
B(x) == IF x THEN 1 ELSE 0
Clauses(e) ==
    IF e.ev = "Start" THEN [ Start |-> \A k \in 1..Len(e.snap) : e.snap[k] = <<1>> ]
    ELSE IF e.ev = "Op" THEN
      LET o == e.o  w == Next2(e) IN
      [ Accepted |-> o.op \notin {"bad", "badindex"} => e.err = "",
        Rejected |-> /\ o.op = "bad" => e.err = "TypeError"
                     /\ o.op = "badindex" => e.err = "IndexError",
        Result |-> o.op \in Makes => e.snap[o.d] = w[o.d],
        Operands |-> \A k \in 1..Len(w) : ~(o.op \in Makes /\ k = o.d) => e.snap[k] = w[k],
        Lists |-> e.lists = e.lists0,
        Length |-> \A k \in 1..Len(w) : e.lens[k] = <<Len(w[k]), Len(w[k])>>,
        Indexing |-> o.op = "item" => e.r = <<Item(v[o.s], o.i)>>,
        Iteration |-> o.op = "iter" => e.r = v[o.s],
        Equality |-> /\ o.op = "eq" => e.r = <<B(v[o.s] = v[o.t]), B(v[o.s] # v[o.t])>>
                     /\ o.op = "eqb" => e.r = <<B(v[o.s] = <<o.id>>), B(v[o.s] # <<o.id>>)>>
                     /\ o.op = "eql" => e.r = <<B(v[o.s] = o.ids), B(v[o.s] # o.ids)>>,
        Shown |-> o.op = "show" => e.r = v[o.s] \o v[o.s] ]
    ELSE IF e.ev = "Exc" THEN [ NoException |-> FALSE ]
    ELSE [ Known |-> e.ev = "Reset" ]
Next == /\ l <= NLines
        /\ v' = Follow(Trace[l])
        /\ bad' = AddAll(bad, l, Failing(Clauses(Trace[l])))
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
