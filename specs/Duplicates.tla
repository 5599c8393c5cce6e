----------------------------- MODULE Duplicates -----------------------------
(* Boreholes at the same position: closer than the largest radius.           *)
EXTENDS Common
Sq(x) == x * x
Dup(pos, rmax, i, j) == Sq(pos[i][1] - pos[j][1]) + Sq(pos[i][2] - pos[j][2]) < Sq(rmax)
Pairs(pos, rmax) == {<<i, j>> \in (1..Len(pos)) \X (1..Len(pos)) : i < j /\ Dup(pos, rmax, i, j)}
\* a borehole is removed when it duplicates an earlier one
RECURSIVE KeptTo(_, _, _)
KeptTo(pos, rmax, k) == IF k = 0 THEN <<>>
    ELSE KeptTo(pos, rmax, k - 1) \o (IF \E i \in 1..k - 1 : Dup(pos, rmax, i, k) THEN <<>> ELSE <<k>>)
Kept(pos, rmax) == KeptTo(pos, rmax, Len(pos))
\* pairs of a condensed distance matrix, in its order
RECURSIVE CondTo(_, _, _)
CondTo(n, i, j) == IF i >= n THEN <<>> ELSE IF j > n THEN CondTo(n, i + 1, i + 2)
                   ELSE <<<<i, j>>>> \o CondTo(n, i, j + 1)
=============================================================================
