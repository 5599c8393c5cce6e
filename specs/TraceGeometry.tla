---------------------------- MODULE TraceGeometry ---------------------------
(* Recorded constructions, and resistance matrices of transformed geometries *)
EXTENDS TraceBase, Geometry
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
FinMat(M) == \A i \in 1..Len(M) : \A j \in 1..Len(M[i]) : M[i][j] # NaN
\* entry (i, j) of R is entry (p[i], p[j]) of S
Permuted(R, S, p, tol) == Len(R) = Len(S) /\ \A i, j \in 1..Len(R) : Close(R[i][j], S[p[i]][p[j]], tol)
\* conductances K of the delta circuit (diagonal to the wall) give the inverse of R
RECURSIVE RowSum(_, _)
RowSum(r, k) == IF k = 0 THEN 0 ELSE r[k] + RowSum(r, k - 1)
Laplace(K, i, j) == IF i = j THEN RowSum(K[i], Len(K)) ELSE 0 - K[i][j]
Clauses(e) ==
    IF e.ev = "Build" THEN [ Accepted |-> Accept(e.g) => e.ok, Rejected |-> ~Accept(e.g) => ~e.ok ]
    ELSE IF e.ev = "Matrix" THEN
        [ Finite |-> FinMat(e.R) /\ FinMat(e.K),
          Reciprocal |-> Permuted(e.R, [i \in 1..Len(e.R) |-> [j \in 1..Len(e.R) |-> e.R[j][i]]],
                                  [i \in 1..Len(e.R) |-> i], e.tol),
          DeltaReciprocal |-> \A i, j \in 1..Len(e.K) : Close(e.K[i][j], e.K[j][i], 20) ,
          \* both in units of 10^-4
          Inverse |-> FinMat(e.R) /\ FinMat(e.K) =>
              \A i, j \in 1..Len(e.K) :
                 LET s == SumSeq([m \in 1..Len(e.K) |-> e.Rs[i][m] * Laplace(e.K, m, j)]) IN
                 Abs(s - (IF i = j THEN e.unit ELSE 0)) <= e.unit \div 100 ]
    ELSE IF e.ev = "Moved" THEN
        [ SameResistances |-> Permuted(e.R, e.S, e.p, e.tol),
          SameResults |-> CloseSeq(e.v, e.w, 2000) ]
    ELSE IF e.ev = "Column" THEN [ Multipole |-> CloseSeq(e.v, e.w, e.tol) ]
    ELSE IF e.ev = "Exc" THEN [ NoException |-> FALSE ]
    ELSE [ Known |-> e.ev = "Reset" ]
Next == /\ l <= NLines
        /\ bad' = AddAll(bad, l, Failing(Clauses(Trace[l])))
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
