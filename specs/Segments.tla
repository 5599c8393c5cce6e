------------------------------ MODULE Segments ------------------------------
(* Segments of a borehole of L units, and the expanding mesh.                *)
EXTENDS Common
\* start of every segment of lengths w
Starts(w) == [i \in 1..Len(w) |-> SumSeq(SubSeq(w, 1, i - 1))]
\* the number of segments that cover the k-th unit of length
Cover(s, w, k) == Cardinality({i \in 1..Len(w) : s[i] < k /\ k <= s[i] + w[i]})
RECURSIVE Power(_, _)
Power(q, k) == IF k <= 0 THEN 1 ELSE q * Power(q, k - 1)
\* lengths expand by the factor q from both ends to the middle
Mesh(n, q) == [i \in 1..n |-> Power(q, Min2(i - 1, n - i))]
=============================================================================
