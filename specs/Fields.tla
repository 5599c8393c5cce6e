------------------------------- MODULE Fields --------------------------------
(* Fields of boreholes on a lattice, connected as a network with a flow rate *)
(* in each circuit, under exchanges of boreholes and rigid motions.  Feeds,  *)
(* distances and orientations are compared by the identity of boreholes.     *)
EXTENDS Network
\* a borehole: id, position x, y, dimensions d, direction a (quarter turns, -1: vertical)
Sigma(i, j, k) == IF k = i THEN j ELSE IF k = j THEN i ELSE k
SwapAt(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
\* connectivity (0-based) after boreholes i and j (1-based) are exchanged
Renamed(c, i, j) == [k \in 1..Len(c) |->
    LET p == c[Sigma(i, j, k)] IN IF p = -1 THEN -1 ELSE Sigma(i - 1, j - 1, p)]
\* flows in the order of inlets, from flows by id
InletFlows(f, c, w) == [k \in 1..Len(Inlets(c)) |-> w[f[Inlets(c)[k] + 1].id]]
\* what each borehole (by id) sees
Feeds(f, c) == {<<f[k].id, IF c[k] = -1 THEN 0 ELSE f[c[k] + 1].id>> : k \in 1..Len(f)}
FlowOf(f, c, q) == {<<f[k].id, q[Circuit(c, k - 1)]>> : k \in 1..Len(f)}
Dir(a) == CASE a = 0 -> <<1, 0>> [] a = 1 -> <<0, 1>> [] a = 2 -> <<-1, 0>> [] a = 3 -> <<0, -1>> [] OTHER -> <<0, 0>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
Between(p, q) == <<q.x - p.x, q.y - p.y>>
View(p, q) == LET v == Between(p, q) IN
    <<p.id, q.id, p.d, q.d, Dot(v, v), Dot(v, Dir(p.a)), Dot(v, Dir(q.a)), Dot(Dir(p.a), Dir(q.a)), p.a = -1, q.a = -1>>
Views(f) == {View(f[i], f[j]) : i, j \in 1..Len(f)}
Moved(p) == [p EXCEPT !.x = p.x + 3, !.y = p.y - 1]
Turned(p) == [p EXCEPT !.x = 0 - p.y, !.y = p.x, !.a = IF p.a = -1 THEN -1 ELSE (p.a + 1) % 4]
Mirrored(p) == [p EXCEPT !.x = 0 - p.x, !.a = IF p.a = -1 THEN -1 ELSE (6 - p.a) % 4]
=============================================================================
