------------------------------- MODULE MCPairs -------------------------------
(* Pairs of boreholes are compared one by one to the first pair of every     *)
(* group, and added (in either order) to the first group of alike pairs.     *)
EXTENDS Pairs
CONSTANTS NB, Cols, Tops, Parts, M, Mut
VARIABLES f, i, j, groups, done
vars == <<f, i, j, groups, done>>
Bores == {[c |-> x, z |-> z, h |-> SumSeq(p), p |-> p] : x \in 0..Cols, z \in Tops, p \in Parts}
Init == /\ f \in {g \in [1..NB -> Bores] : \A a, b \in 1..NB : a # b => g[a].c # g[b].c}
        /\ i = 1 /\ j = 2 /\ groups = <<>> /\ done = (NB = 1)
Same(p, q) == /\ IF Mut = "real" THEN RealAlike(p, q) ELSE IF Mut = "image" THEN ImageAlike(p, q)
                 ELSE IF Mut = "lengths" THEN {p[1].h, p[2].h} = {q[1].h, q[2].h} /\ {p[1].z, p[2].z} = {q[1].z, q[2].z}
                 ELSE Alike(p, q)
              /\ Mut \in {"depths", "image", "real", "lengths"} \/ Ordered(p, q)
              /\ Mut = "ratios" \/ Cut(p, q)
Pair(a, b) == <<f[a], f[b]>>
Ref(k) == Pair(groups[k][1][1], groups[k][1][2])
Fits(k, a, b) == Same(Pair(a, b), Ref(k))
Cands == {k \in 1..Len(groups) : Fits(k, i, j) \/ Fits(k, j, i)}
Place == IF Cands = {} THEN Append(groups, <<<<i, j>>>>)
         ELSE LET k == MinOf(Cands) IN
              [groups EXCEPT ![k] = Append(@, IF Fits(k, i, j) \/ Mut = "reverse" THEN <<i, j>> ELSE <<j, i>>)]
Next == /\ ~done /\ groups' = Place /\ f' = f
        /\ IF j < NB THEN j' = j + 1 /\ i' = i /\ done' = FALSE
           ELSE IF i + 1 < NB THEN i' = i + 1 /\ j' = i + 2 /\ done' = FALSE
           ELSE i' = i /\ j' = j /\ done' = TRUE
Spec == Init /\ [][Next]_vars
\* the response of segment v of b to segment u of a, as found from the groups
GroupOf(a, b) == CHOOSE k \in 1..Len(groups) : \E x \in 1..Len(groups[k]) : groups[k][x] \in {<<a, b>>, <<b, a>>}
Forward(k, a, b) == \E x \in 1..Len(groups[k]) : groups[k][x] = <<a, b>>
\* value of the k-th unique pair of the first pair of boreholes, at the distance of a and b
AtDistance(s, a, b) == [s EXCEPT ![1].c = 0, ![2].c = IF Mut = "distance" THEN Abs(s[1].c - s[2].c) ELSE Abs(f[a].c - f[b].c)]
Table(ker, g, a, b, u, v) ==
    LET r == Ref(g)  un == UniquePairs(r[1], r[2])
        x == <<Seg(r[1], u), Seg(r[2], v)>>
        s == AtDistance(un[FirstAlike(un, x, 1)], a, b) IN
    Resp(ker, M, s[1], s[2])
Value(ker, a, b, u, v) ==
    LET g == GroupOf(a, b)  r == Ref(g) IN
    IF Forward(g, a, b) THEN Table(ker, g, a, b, u, v)
    ELSE IF Mut = "ratio" THEN Table(ker, g, a, b, v, u)
    ELSE (Table(ker, g, a, b, v, u) * Seg(r[2], u).h) \div Seg(r[1], v).h
Fitting(a, b, u, v) == LET r == Ref(GroupOf(a, b)) IN
    IF Forward(GroupOf(a, b), a, b) THEN u <= Len(r[1].p) /\ v <= Len(r[2].p) ELSE v <= Len(r[1].p) /\ u <= Len(r[2].p)
Kernels == [c : 0..Cols, z : 0..(2 * (MaxOf(Tops) + MaxOf({SumSeq(p) : p \in Parts})))]
InvPartition == done => \A a, b \in 1..NB : a < b =>
    Cardinality({<<k, x>> \in UNION {{<<k, y>> : y \in 1..Len(groups[k])} : k \in 1..Len(groups)} : groups[k][x] \in {<<a, b>>, <<b, a>>}}) = 1
InvValues == done => \A a, b \in 1..NB : a # b =>
    \A u \in 1..Len(f[a].p), v \in 1..Len(f[b].p) : /\ Fitting(a, b, u, v)
                                                    /\ \A ker \in Kernels : Value(ker, a, b, u, v) = Resp(ker, M, Seg(f[a], u), Seg(f[b], v))
PartsA == {<<1, 1>>, <<2>>}
PartsB == {<<1, 2>>, <<2, 1>>, <<3>>, <<1, 1>>}
PartsC == {<<1, 2>>, <<2, 1>>, <<1, 1>>, <<2>>, <<1>>}
=============================================================================
