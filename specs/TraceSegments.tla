---------------------------- MODULE TraceSegments ---------------------------
(* Recorded segments: heads and bottoms of the segments, and of the borehole *)
EXTENDS TraceBase, Segments, Lump
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
Half(n) == (n + 1) \div 2
Clauses(e) ==
    IF e.ev = "Seg" THEN
      LET n == Len(e.ratios) IN
      [ Number |-> Len(e.top) = n,
        Top |-> n > 0 /\ Len(e.top) = n => CloseSeq(e.top[1], e.head, 5),
        Chain |-> Len(e.top) = n => \A k \in 1..n - 1 : CloseSeq(e.bottom[k], e.top[k + 1], 5),
        Bottom |-> n > 0 /\ Len(e.top) = n => CloseSeq(e.bottom[n], e.foot, 5 + n),
        Lengths |-> CloseSeq(e.len, e.ratios, 5),
        Alike |-> e.alike = Const(n, 1),
        Operand |-> e.same ]
    ELSE IF e.ev = "Mesh" THEN
      \* ratios (unit 10^8), quotients of consecutive ratios to the middle (10^6)
      LET n == e.n IN
      [ Number |-> Len(e.r) = n,
        Positive |-> e.sign = Const(Len(e.r), 1),
        Total |-> Abs(SumSeq(e.r) - 100000000) <= 110 + n,
        Symmetric |-> CloseSeq(e.r, Rev(e.r), 5),
        Ends |-> n > 2 => Close(e.r[1], e.end, 110),
        Constant |-> Len(e.q) = Max2(Half(n) - 1, 0) /\ \A k \in 1..Len(e.q) : n > 3 => Close(e.q[k], e.q[1], 5 + e.q[1] \div 100000) ]
    ELSE IF e.ev = "Equivalent" THEN
      \* members of an equivalent borehole, and the parts of its segments, by member
      [ Stands |-> e.n = Len(e.members) /\ CloseMat(e.at, e.members, 2) /\ e.tilted = e.wanttilted,
        Parts |-> e.parts = e.wantparts,
        Distances |-> CloseMat(e.dis, e.wantdis, 2) ]
    ELSE IF e.ev = "Lumps" THEN
      LET w == Lumps(e.d, e.p, e.q) IN
      [ Number |-> Len(e.w) = Len(w) /\ Len(e.mean) = Len(w),
        Weights |-> e.w = [k \in DOMAIN w |-> w[k].n],
        Means |-> Len(e.mean) = Len(w) /\ \A k \in 1..Len(w) : Abs(e.mean[k] * w[k].n - w[k].sum) <= 2 * w[k].n ]
    ELSE IF e.ev = "Bad" THEN [ Rejected |-> e.err = "AssertionError" ]
    ELSE IF e.ev = "Exc" THEN [ NoException |-> FALSE ]
    ELSE [ Known |-> e.ev = "Reset" ]
Next == /\ l <= NLines
        /\ bad' = AddAll(bad, l, Failing(Clauses(Trace[l])))
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
