------------------------------- MODULE Groups --------------------------------
(* Boreholes of a field replaced by groups.  pos is the position of every    *)
(* borehole, grp its group (1..m).  The response between two groups is the   *)
(* sum of those of all pairs of their boreholes, by distance, divided by the *)
(* number of receiving boreholes.                                            *)
EXTENDS Common
D2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Members(grp, g) == {i \in 1..Len(grp) : grp[i] = g}
NGroups(grp) == IF grp = <<>> THEN 0 ELSE MaxSeq(grp)
\* boreholes of a group see the same distances to each group
Seen(d, grp, i, g, x) == Cardinality({j \in Members(grp, g) : j # i /\ d[i][j] = x})
Symmetric(d, grp) == LET n == Len(grp) IN
    \A i, j \in 1..n : grp[i] = grp[j] =>
        \A k \in 1..n : Seen(d, grp, i, grp[k], d[i][k]) = Seen(d, grp, j, grp[k], d[i][k])
                     /\ Seen(d, grp, i, grp[k], d[j][k]) = Seen(d, grp, j, grp[k], d[j][k])
\* number of pairs of boreholes of two groups at distance x
Count(d, grp, a, b, x) == Cardinality({p \in Members(grp, a) \X Members(grp, b) : p[1] # p[2] /\ d[p[1]][p[2]] = x})
=============================================================================
