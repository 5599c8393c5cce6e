------------------------------ MODULE MCGroups -------------------------------
(* Boreholes are placed one by one, each in a group; the response between    *)
(* boreholes is one at a single distance, and to themselves.                 *)
EXTENDS Groups
CONSTANTS N, X, Y, M, Mut
VARIABLES pos, grp
vars == <<pos, grp>>
Init == pos = <<>> /\ grp = <<>>
Next == /\ Len(pos) < N
        /\ \E p \in (0..X) \X (0..Y), g \in 1..(NGroups(grp) + 1) :
             /\ \A i \in 1..Len(pos) : pos[i] # p
             /\ (pos = <<>> => p[1] = 0)
             /\ pos' = Append(pos, p) /\ grp' = Append(grp, g)
Spec == Init /\ [][Next]_vars
n == Len(pos)
d == [i \in 1..n |-> [j \in 1..n |-> D2(pos[i], pos[j])]]
Dist == {d[i][j] : i, j \in 1..n}
\* responses of boreholes: one at distance x, M * self to themselves
H(x, i, j) == IF i = j THEN (IF x = 0 THEN 1 ELSE 0) ELSE IF d[i][j] = x THEN 1 ELSE 0
Size(g) == Cardinality(Members(grp, g))
\* of groups (receiver a, source b), times M
HG(x, a, b) ==
    LET c == IF Mut = "self" /\ a = b THEN Cardinality({p \in Members(grp, a) \X Members(grp, b) : d[p[1]][p[2]] = x})
             ELSE IF Mut = "half" /\ a = b THEN Count(d, grp, a, b, x) \div 2 ELSE Count(d, grp, a, b, x) IN
    c * (M \div (IF Mut = "source" THEN Size(b) ELSE Size(a))) + (IF a = b /\ x = 0 THEN M ELSE 0)
RECURSIVE SumH(_, _, _)
SumH(x, i, S) == IF S = {} THEN 0 ELSE LET j == CHOOSE y \in S : TRUE IN H(x, i, j) + SumH(x, i, S \ {j})
\* with the same rate in all boreholes of a group, each borehole of a group
\* has the temperature of the group
InvQuotient == Mut = "any" \/ Symmetric(d, grp) =>
    \A x \in Dist \union {0} : \A i \in 1..n : \A b \in 1..NGroups(grp) :
        HG(x, grp[i], b) = M * SumH(x, i, Members(grp, b))
\* weighted by numbers of boreholes, responses are reciprocal
InvReciprocal == \A x \in Dist : \A a, b \in 1..NGroups(grp) : Size(a) * HG(x, a, b) = Size(b) * HG(x, b, a)
InvSingle == (\A a \in 1..NGroups(grp) : Size(a) = 1) => Symmetric(d, grp)
=============================================================================
