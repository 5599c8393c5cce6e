----------------------------- MODULE TraceEval -------------------------------
(* Evaluations over lists of times, that may be of several objects, and of   *)
(* several flow rates.  Times are given by their index; up to f.thr they are *)
(* below the threshold and f.w is their ratio to it in thousandths.  Every   *)
(* value is compared with all earlier ones that depend on the same.          *)
EXTENDS TraceBase, Eval
VARIABLES l, bad, f, past
vars == <<l, bad, f, past>>
Init == l = 1 /\ bad = <<>> /\ f = [thr |-> 0] /\ past = <<>>
Big == 1000000
IsLow(i) == i <= f.thr
\* values v and v2 at times i and i2 that depend on the same grid
Agree(v, i, v2, i2, tol) ==
    /\ Abs(v) < Big /\ Abs(v2) < Big
    /\ IF IsLow(i) THEN Abs(v * f.w[i2] - v2 * f.w[i]) <= 1000 * tol ELSE Abs(v - v2) <= tol
AgreeSeq(x, i, y, i2, tol) == Len(x) = Len(y) /\ \A k \in DOMAIN x : Agree(x[k], i, y[k], i2, tol)
Column(m, p) == [b \in DOMAIN m |-> m[b][p]]
Pairs(e, a) == {pp \in (DOMAIN e.ts) \X (DOMAIN a.ts) : Key(e.ts, pp[1], f.thr) = Key(a.ts, pp[2], f.thr)}
SameFlows(e, a) == {ij \in (DOMAIN e.f) \X (DOMAIN a.f) : e.f[ij[1]] = a.f[ij[2]]}
Shape(e) == LET n == Len(e.f)  t == Len(e.ts) IN
    /\ Len(e.g) = n /\ Len(e.q) = n /\ Len(e.t) = n /\ Len(e.sq) = n /\ Len(e.st) = n
    /\ \A i \in 1..n : /\ Len(e.g[i]) = n /\ \A j \in 1..n : Len(e.g[i][j]) = t
                       /\ Len(e.q[i]) = f.n /\ Len(e.t[i]) = f.n
                       /\ \A b \in 1..f.n : Len(e.q[i][b]) = t /\ Len(e.t[i][b]) = t
Versus(e, a) ==
    LET P == Pairs(e, a)  S == SameFlows(e, a)
        last == <<Len(e.ts), Len(a.ts)>>
        G(ii, jj) == \A p \in P : Agree(e.g[ii[1]][jj[1]][p[1]], e.ts[p[1]], a.g[ii[2]][jj[2]][p[2]], a.ts[p[2]], f.tol)
    IN [ GFunction |-> \A ii \in S : G(ii, ii),
         OtherFlow |-> \A ii, jj \in S : G(ii, jj),
         HeatRates |-> \A ii \in S, p \in P : AgreeSeq(Column(e.q[ii[1]], p[1]), e.ts[p[1]], Column(a.q[ii[2]], p[2]), a.ts[p[2]], f.tol),
         Temperatures |-> \A ii \in S, p \in P : AgreeSeq(Column(e.t[ii[1]], p[1]), e.ts[p[1]], Column(a.t[ii[2]], p[2]), a.ts[p[2]], f.tol),
         Profiles |-> last \in P => \A ii \in S : /\ AgreeSeq(e.sq[ii[1]], e.ts[last[1]], a.sq[ii[2]], a.ts[last[2]], f.tol)
                                                 /\ AgreeSeq(e.st[ii[1]], e.ts[last[1]], a.st[ii[2]], a.ts[last[2]], f.tol) ]
Origin(e) == \A i, j \in DOMAIN e.f : \A p \in DOMAIN e.ts : e.ts[p] <= f.thr /\ f.w[e.ts[p]] = 0 => e.g[i][j][p] = 0
Evals(e) ==
    IF ~Shape(e) THEN [ Shape |-> FALSE ]
    ELSE LET all == {a \in Range(past) \union {e} : a.c = e.c} IN
    [ Origin |-> Origin(e),
      Returned |-> e.ret = e.g,
      GFunction |-> \A a \in all : Versus(e, a).GFunction,
      OtherFlow |-> \A a \in all : Versus(e, a).OtherFlow,
      HeatRates |-> \A a \in all : Versus(e, a).HeatRates,
      Temperatures |-> \A a \in all : Versus(e, a).Temperatures,
      Profiles |-> \A a \in all : Versus(e, a).Profiles ]
\* values by their definition at the p-th time of the last evaluation
Def(e) ==
    IF past = <<>> THEN [ Shape |-> FALSE ]
    ELSE LET a == past[Len(past)] IN
    [ Definition |-> \A i, j \in DOMAIN a.f : Abs(a.g[i][j][e.p]) < Big /\ (e.wide \/ Abs(a.g[i][j][e.p] - e.g[i][j]) <= e.tol) ]
Clauses(e) ==
    CASE e.ev = "Field" -> [ Shape |-> Len(e.w) = e.thr ]
      [] e.ev = "Eval" -> Evals(e)
      [] e.ev = "Def" -> Def(e)
      [] e.ev = "Inputs" -> [ InputsUnchanged |-> e.same ]
      [] e.ev = "Zero" -> [ NoThreshold |-> CloseSeq(e.a, e.b, f.tol) /\ \A i \in DOMAIN e.b : Abs(e.b[i]) < Big ]
      [] e.ev = "Reject" -> [ Rejected |-> e.err # "" ]
      [] e.ev = "Exc" -> [ NoException |-> FALSE ]
      [] OTHER -> [ Known |-> e.ev = "Reset" ]
Next == /\ l <= NLines
        /\ LET e == Trace[l] IN
           /\ bad' = AddAll(bad, l, Failing(Clauses(e)))
           /\ f' = IF e.ev = "Field" THEN e ELSE IF e.ev = "Reset" THEN [thr |-> 0] ELSE f
           /\ past' = IF e.ev = "Eval" /\ Shape(e) THEN Append(past, e) ELSE IF e.ev = "Reset" THEN <<>> ELSE past
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
