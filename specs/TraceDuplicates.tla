-------------------------- MODULE TraceDuplicates ---------------------------
(* Recorded searches and removals; coordinates in exact units.               *)
EXTENDS TraceBase, Duplicates
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
One(p) == <<p[1] + 1, p[2] + 1>>
Clauses(e) ==
    IF e.ev = "Dup" THEN
      LET rmax == MaxSeq(e.rb)  kept == Kept(e.pos, rmax) IN
      [ Found |-> /\ {One(p) : p \in Range(e.pairs)} = Pairs(e.pos, rmax)
                  /\ Len(e.pairs) = Cardinality(Pairs(e.pos, rmax)),
        Kept |-> e.kept = kept,
        \* the result has no duplicates when positions are in clusters
        Distinct |-> e.clusters => e.again = <<>> /\ e.kept2 = e.kept,
        Operand |-> e.after = [k \in 1..Len(e.pos) |-> k] ]
    ELSE IF e.ev = "Dist" THEN
      \* distance between boreholes, never less than the radius of the first
      [ Distance |-> CloseSeq(e.d, e.w, 2) ]
    ELSE IF e.ev = "Big" THEN
      [ Found |-> e.pairs = e.want, Kept |-> e.kept = e.left ]
    ELSE IF e.ev = "Exc" THEN [ NoException |-> FALSE ]
    ELSE [ Known |-> e.ev = "Reset" ]
Next == /\ l <= NLines
        /\ bad' = AddAll(bad, l, Failing(Clauses(Trace[l])))
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
