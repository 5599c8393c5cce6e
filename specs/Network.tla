------------------------------- MODULE Network -------------------------------
(* Topology of a borehole network and balances of the fluid.                 *)
(* c: connectivity vector over boreholes 0..n-1 (c[i+1] is the borehole that *)
(* feeds borehole i, or -1 for the network inlet).                           *)
EXTENDS Common

Nodes(c) == 0..Len(c) - 1
At(c, i) == c[i + 1]
CountOf(c, x) == Cardinality({i \in Nodes(c) : At(c, i) = x})

\* Declarative acceptance: entries are -1 or boreholes, no borehole feeds two
\* others, and no cycles: from any borehole, following c reaches -1
RECURSIVE Reaches(_, _, _)
Reaches(c, i, fuel) == i = -1 \/ (fuel > 0 /\ i \in Nodes(c) /\ Reaches(c, At(c, i), fuel - 1))
Accept(c) == /\ \A i \in Nodes(c) : At(c, i) = -1 \/ At(c, i) \in Nodes(c)
             /\ \A i, j \in Nodes(c) : i # j /\ At(c, i) = At(c, j) => At(c, i) = -1
             /\ \A i \in Nodes(c) : Reaches(c, i, Len(c) + 1)

\* Topology of an accepted vector
RECURSIVE Root(_, _)
Root(c, i) == IF At(c, i) = -1 THEN i ELSE Root(c, At(c, i))
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o Ascending(S \ {m})
Inlets(c) == Ascending({i \in Nodes(c) : At(c, i) = -1})
Leaves(c) == {i \in Nodes(c) : \A j \in Nodes(c) : At(c, j) # i}
Circuit(c, i) == CHOOSE k \in 1..Len(Inlets(c)) : Inlets(c)[k] = Root(c, i)

\* where the fluid of borehole i comes from (-1: network inlet), and the
\* boreholes whose fluid leaves the network, for both flow directions
Source(c, rev, i) == IF ~rev THEN At(c, i)
                     ELSE IF i \in Leaves(c) THEN -1
                     ELSE CHOOSE j \in Nodes(c) : At(c, j) = i
Exits(c, rev) == IF rev THEN {i \in Nodes(c) : At(c, i) = -1} ELSE Leaves(c)

\* sum of f[i] over a set of boreholes
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN f[i + 1] + SumSet(S \ {i}, f)
\* heat capacity rate through every borehole, from that of every circuit
Rates(c, C) == [k \in 1..Len(c) |-> C[Circuit(c, k - 1)]]

\* total heat rate and (total rate) * (outlet - inlet): equal for all outlets
HeatSum(c, rev, C, tin, tout) ==
    LET r == Rates(c, C) IN
    SumSeq([k \in 1..Len(c) |-> LET s == Source(c, rev, k - 1) IN
                                r[k] * (tout[k] - (IF s = -1 THEN tin ELSE tout[s + 1]))])
MixSum(c, rev, C, tout) == LET r == Rates(c, C) IN
                           SumSet(Exits(c, rev), [k \in 1..Len(c) |-> r[k] * tout[k]])
=============================================================================
