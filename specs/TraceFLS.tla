------------------------------ MODULE TraceFLS ------------------------------
(* Recorded responses of fields of line sources.  m[t][i][j] is the length   *)
(* of receiver i times its response to source j at time t, in units that     *)
(* make the largest 10^7.  The abstract state is the last matrix (which is   *)
(* recorded again by each event) and the origin of every line.               *)
EXTENDS TraceBase, FLS
VARIABLES l, bad, m, org
vars == <<l, bad, m, org>>
Init == l = 1 /\ bad = <<>> /\ m = <<>> /\ org = <<>>
Perm(x, i, j) == [a \in 1..Len(x) |-> SwapAt(SwapAt(x, i, j)[a], i, j)]
\* inclined lines: only responses between different boreholes are claimed
Judged(e, o, i, j) == e.vertical \/ o[i] # o[j]
Same(e, x, y, o) == Len(x) = Len(y) /\ \A i, j \in 1..Len(x) : Judged(e, o, i, j) => Close(x[i][j], y[i][j], e.tol)
Square(x, n) == Len(x) = n /\ \A i \in 1..n : Len(x[i]) = n
Size(e) == IF e.op = "cut" THEN Len(org) + 1 ELSE Len(org)
NewOrg(e) == CASE e.op = "cut" -> CutParents(org, e.i)
               [] e.op = "swap" -> SwapAt(org, e.i, e.j)
               [] OTHER -> org
After(e, t) ==
    LET n == Len(org)  x == e.m[t]  y == m[t] IN
    CASE e.op = "cut" -> Same(e, BlockSums(x, CutParents([q \in 1..n |-> q], e.i), n), y, org)
      [] e.op = "swap" -> Same(e, x, Perm(y, e.i, e.j), NewOrg(e))
      [] OTHER -> Same(e, x, y, org)
Shape(e, n) == \A t \in 1..Len(e.m) : Square(e.m[t], n) /\ Square(e.real[t], n) /\ Square(e.img[t], n)
Matrix(e, n, o) ==
    [ Shape |-> Shape(e, n),
      Reciprocal |-> \A t \in 1..Len(e.m) : \A i, j \in 1..n : Judged(e, o, i, j) => Close(e.m[t][i][j], e.m[t][j][i], e.tol),
      RealPlusImage |-> \A t \in 1..Len(e.m) : \A i, j \in 1..n : Judged(e, o, i, j) => Close(e.m[t][i][j], e.real[t][i][j] + e.img[t][i][j], e.tol),
      Neither |-> e.none = 0,
      Monotone |-> \A t \in 1..Len(e.m) - 1 : \A i, j \in 1..n : Judged(e, o, i, j) => e.m[t + 1][i][j] >= e.m[t][i][j] - e.tol,
      Positive |-> \A t \in 1..Len(e.m) : \A i, j \in 1..n : Judged(e, o, i, j) =>
          e.m[t][i][j] >= 0 - e.tol /\ e.real[t][i][j] >= 0 - e.tol /\ e.img[t][i][j] <= e.tol,
      Anchor |-> \A t \in 1..Len(e.m) : \A q \in 1..Len(e.at) : Close(e.m[t][e.at[q][1]][e.at[q][2]], e.ref[t][q], e.tol) ]
Clauses(e) ==
    IF e.ev = "Start" THEN (IF Shape(e, e.n) THEN Matrix(e, e.n, [i \in 1..e.n |-> i]) ELSE [Shape |-> FALSE])
    ELSE IF e.ev = "Op" THEN
      IF ~Shape(e, Size(e)) THEN [Shape |-> FALSE]
      ELSE LET c == Matrix(e, Size(e), NewOrg(e)) IN
           [ x \in DOMAIN c \union {e.op} |-> IF x = e.op THEN \A t \in 1..Len(e.m) : After(e, t) ELSE c[x] ]
    ELSE IF e.ev = "Forms" THEN
      \* values of each form of the same request, and of others close to it
      [ Forms |-> \A q \in 1..Len(e.v) : e.shape[q] /\ CloseSeq(e.v[q], e.v[1], e.tol),
        Approximate |-> \A q \in 1..Len(e.approx) : CloseSeq(e.approx[q], e.v[1], e.atol),
        ApproximateForms |-> \A q \in 1..Len(e.approx) : CloseSeq(e.approx[q], e.approx[1], e.tol) ]
    ELSE IF e.ev = "Near" THEN [ c \in {e.what} |-> CloseSeq(e.a, e.b, e.tol) ]
    ELSE IF e.ev = "Exc" THEN [ NoException |-> FALSE ]
    ELSE [ Known |-> e.ev = "Reset" ]
Next == /\ l <= NLines
        /\ LET e == Trace[l] IN
           /\ bad' = AddAll(bad, l, Failing(Clauses(e)))
           /\ m' = IF e.ev \in {"Start", "Op"} THEN e.m ELSE m
           /\ org' = CASE e.ev = "Start" -> [i \in 1..e.n |-> i]
                       [] e.ev = "Op" -> NewOrg(e)
                       [] OTHER -> org
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
