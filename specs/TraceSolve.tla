----------------------------- MODULE TraceSolve ------------------------------
(* A solution as seen through the public queries.  "Sol" holds g-function,   *)
(* average rates (scaled by e.u), temperatures of boreholes; "Prof" rates *)
(* and temperatures of segments at one of the times; "Mid" between two of    *)
(* them; "Ref" an independent solution; "Steps" is solved here with GSolve.  *)
EXTENDS TraceBase, Groups, GSolve
VARIABLES l, bad, f, s, pr
vars == <<l, bad, f, s, pr>>
None == [n |-> 0]
Init == l = 1 /\ bad = <<>> /\ f = None /\ s = None /\ pr = <<>>
All(seq, v, tol) == \A i \in DOMAIN seq : Close(seq[i], v, tol)
Weighted(w, x) == SumSeq([i \in DOMAIN w |-> w[i] * x[i]])
\* an average with weights, of sum W
Mean(w, x, W) == x[1] + Weighted(w, [i \in DOMAIN x |-> x[i] - x[1]]) \div W
Htot == SumSeq(f.H)
Column(m, p) == [i \in DOMAIN m |-> m[i][p]]
\* numbers are cut at 10^6, which also stands for those that are not finite
AllFinite(m) == \A i \in DOMAIN m : \A p \in DOMAIN m[i] : Abs(m[i][p]) < 1000000
SolShape(e) == /\ Len(e.g) = f.nt /\ Len(e.q) = f.n /\ Len(e.t) = f.n
               /\ \A i \in 1..f.n : Len(e.q[i]) = f.nt /\ Len(e.t[i]) = f.nt
Sol(e) ==
    IF ~SolShape(e) THEN [ Shape |-> FALSE ]
    ELSE [ Finite |-> AllFinite(e.q) /\ AllFinite(e.t) /\ AllFinite(<<e.g>>),
           Balance |-> \A p \in 1..f.nt : Close(Mean(f.H, Column(e.q, p), Htot), e.u, e.tol),
           UniformRates |-> f.bc = "UHTR" => \A i \in 1..f.n : All(e.q[i], e.u, e.tol),
           AverageTemperature |-> f.bc = "UHTR" =>
               \A p \in 1..f.nt : Close(Mean(f.H, Column(e.t, p), Htot), e.g[p], e.tol),
           UniformTemperature |-> f.bc = "UBWT" => \A i \in 1..f.n : CloseSeq(e.t[i], e.g, e.tol),
           Curve |-> CloseSeq(e.cx, e.ex, 20) /\ CloseSeq(e.cy, e.g, e.tol),
           Returned |-> CloseSeq(e.ret, e.g, 0) ]
ProfShape(e) == /\ Len(e.sq) = f.n /\ Len(e.st) = f.n /\ s.n = f.n
                /\ \A i \in 1..f.n : Len(e.st[i]) = Len(f.zt[i]) /\ Len(e.sq[i]) = Len(f.zq[i])
W == 2000
\* weights are rounded
Spread(x) == MaxSeq(x) - MinOf(Range(x))
Slack(x) == 20 + (Len(x) * Spread(x)) \div 4000
Average(w, x, v) == Spread(x) > 1000000 \/ Close(Mean(w, x, W), v, Slack(x))
Prof(e) ==
    IF ~ProfShape(e) THEN [ Shape |-> FALSE ]
    ELSE [ Finite |-> AllFinite(e.sq) /\ AllFinite(e.st),
           Depths |-> f.vert => CloseMat(e.zq, f.zq, 2) /\ CloseMat(e.zt, f.zt, 2),
           AverageRates |-> f.bc # "UHTR" => \A i \in 1..f.n : Len(f.r[i]) > 1 =>
               Average(f.r[i], e.sq[i], s.q[i][e.p]),
           AverageTemperatures |-> f.bc # "UBWT" => \A i \in 1..f.n : Len(f.r[i]) > 1 =>
               Average(f.r[i], e.st[i], s.t[i][e.p]),
           SingleSegment |-> \A i \in 1..f.n : Len(f.r[i]) = 1 => All(e.sq[i], s.q[i][e.p], 5) /\ All(e.st[i], s.t[i][e.p], 5),
           UniformRates |-> f.bc = "UHTR" => \A i \in 1..f.n : All(e.sq[i], s.u, 5),
           UniformTemperature |-> f.bc = "UBWT" => \A i \in 1..f.n : All(e.st[i], s.g[e.p], 5) ]
\* the network between one inlet temperature and the wall temperatures
Net(e) ==
    IF Len(pr) = 0 \/ s.n = 0 THEN [ Shape |-> FALSE ]
    ELSE LET a == pr[Len(pr)] IN
    [ NetworkRates |-> CloseMat(a.sq, e.nq, e.tol),
      EffectiveTemperature |-> e.wide \/ Close(2 * s.g[e.p], e.tin + e.tout - 2 * e.kr, e.tol) ]
Between(a, b, w) == [i \in DOMAIN a |-> a[i] + RDiv((b[i] - a[i]) * w, 100)]
Mid(e) ==
    IF Len(pr) < e.p + 1 \/ Len(e.sq) # f.n THEN [ Shape |-> FALSE ]
    ELSE LET a == pr[e.p]  b == pr[e.p + 1] IN
    [ BetweenRates |-> \A i \in 1..f.n : CloseSeq(e.sq[i], Between(a.sq[i], b.sq[i], e.w), 10),
      BetweenTemperatures |-> \A i \in 1..f.n : CloseSeq(e.st[i], Between(a.st[i], b.st[i], e.w), 10) ]
Ref(e) ==
    IF s.n = 0 \/ Len(pr) # f.nt THEN [ Shape |-> FALSE ]
    ELSE LET ok == Symmetric(f.d, e.grp) IN
    [ GFunction |-> ok => CloseSeq(s.g, e.g, e.tol),
      HeatRates |-> ok => CloseMat(s.q, e.q, e.tol),
      Temperatures |-> ok => CloseMat(s.t, e.t, e.tol),
      RateProfiles |-> ok => \A p \in 1..f.nt : CloseMat(pr[p].sq, e.sq[p], 5 * e.tol),
      TemperatureProfiles |-> ok => \A p \in 1..f.nt : CloseMat(pr[p].st, e.st[p], 5 * e.tol) ]
(* e.tau times (integers), e.h[i][j] responses of i to j at these times, e.q *)
(* rates and e.t temperatures of segments at these times.  Rates are scaled  *)
(* by 500, responses and temperatures by 2000.                       *)
Pos(seq, x) == CHOOSE k \in DOMAIN seq : seq[k] = x
Solved(e, i, p) ==
    LET tau == SubSeq(e.tau, 1, p)  n == Len(e.q)
        d == Dt(tau)
        \* load of source j over step k of the opposite list, the last one (unknown yet) apart
        R(j) == LET past == [k \in 1..p |-> IF k = p THEN 0 ELSE e.q[j][k]]
                    r == Rebuilt(tau, past) IN [k \in 1..p |-> RDiv(r[k], Lengths(tau)[k])]
        From(j) == LET r == R(j) IN
            SumSeq([k \in 1..p |-> e.h[i][j][p + 1 - k] * (r[k] - (IF k = 1 THEN 0 ELSE r[k - 1]))])
            + At(e.tau, e.h[i][j], d[p]) * e.q[j][p]
    IN SumSeq([j \in 1..n |-> From(j)]) \div 500
Steps(e) ==
    [ Superposition |-> \A i \in DOMAIN e.t, p \in DOMAIN e.tau : Close(Solved(e, i, p), e.t[i][p], e.tol) ]
Clauses(e) ==
    CASE e.ev = "Field" -> [ Shape |-> Len(e.H) = e.n ]
      [] e.ev = "Sol" -> Sol(e)
      [] e.ev = "Prof" -> Prof(e)
      [] e.ev = "Net" -> Net(e)
      [] e.ev = "Mid" -> Mid(e)
      [] e.ev = "Ref" -> Ref(e)
      [] e.ev = "Steps" -> Steps(e)
      [] e.ev = "Exc" -> [ NoException |-> FALSE ]
      [] OTHER -> [ Known |-> e.ev = "Reset" ]
Next == /\ l <= NLines
        /\ LET e == Trace[l] IN
           /\ bad' = AddAll(bad, l, Failing(Clauses(e)))
           /\ f' = IF e.ev = "Field" THEN e ELSE IF e.ev = "Reset" THEN None ELSE f
           /\ s' = IF e.ev = "Sol" /\ SolShape(e) THEN e @@ [n |-> f.n] ELSE IF e.ev = "Reset" THEN None ELSE s
           /\ pr' = IF e.ev = "Prof" THEN Append(pr, e) ELSE IF e.ev = "Reset" THEN <<>> ELSE pr
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
