-------------------------------- MODULE Lump ---------------------------------
(* Distances that are nearly equal, lumped together.  d is a sequence of     *)
(* distances in increasing order, the tolerance is P/Q.  A lump begins at    *)
(* the smallest distance that is left, and holds all those below it times    *)
(* one plus the tolerance.                                                   *)
EXTENDS Common
Within(a, b, P, Q) == Q * b < (Q + P) * a
\* the last index of the lump that begins at i
End(d, i, P, Q) == MaxOf({k \in i..Len(d) : Within(d[i], d[k], P, Q)})
RECURSIVE From(_, _, _, _)
From(d, i, P, Q) == IF i > Len(d) THEN <<>>
                    ELSE LET k == End(d, i, P, Q) IN <<[n |-> k - i + 1, sum |-> SumSeq(SubSeq(d, i, k))]>> \o From(d, k + 1, P, Q)
Lumps(d, P, Q) == From(d, 1, P, Q)
==============================================================================
