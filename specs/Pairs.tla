-------------------------------- MODULE Pairs --------------------------------
(* Responses between all segments of a field from those of a few pairs of    *)
(* boreholes and segments.  A borehole is a line of cells (see FLS) with the *)
(* lengths of its segments, from top to bottom.                              *)
EXTENDS FLS
Seg(b, u) == [c |-> b.c, z |-> b.z + SumSeq(SubSeq(b.p, 1, u - 1)), h |-> b.p[u]]
\* response (times 2 M) of segment v of b2 to segment u of b1
Resp(k, M, s1, s2) == (TwiceReal(k, s1, s2) + TwiceImage(k, s1, s2)) * (M \div s2.h)
Ordered(p, q) == p[1].z = q[1].z /\ p[2].z = q[2].z
SameH(p, q) == p[1].h = q[1].h /\ p[2].h = q[2].h
\* real and image sources give the same responses
RealAlike(p, q) == SameH(p, q) /\ (p[2].z - p[1].z = q[2].z - q[1].z \/ (p[1].h = p[2].h /\ Abs(p[2].z - p[1].z) = Abs(q[2].z - q[1].z)))
ImageAlike(p, q) == SameH(p, q) /\ p[1].z + p[2].z = q[1].z + q[2].z
Alike(p, q) == RealAlike(p, q) /\ ImageAlike(p, q)
Cut(p, q) == p[1].p = q[1].p /\ p[2].p = q[2].p
\* unique pairs of segments of a pair of boreholes, and the index of each pair
RECURSIVE FirstAlike(_, _, _)
FirstAlike(s, x, k) == IF k > Len(s) THEN 0 ELSE IF Alike(s[k], x) THEN k ELSE FirstAlike(s, x, k + 1)
RECURSIVE Uniq(_, _)
Uniq(todo, s) == IF todo = <<>> THEN s
                 ELSE LET x == Head(todo) IN
                      Uniq(Tail(todo), IF FirstAlike(s, x, 1) = 0 THEN Append(s, x) ELSE s)
AllPairs(b1, b2) == LET n1 == Len(b1.p)  n2 == Len(b2.p) IN
    [x \in 1..n1 * n2 |-> <<Seg(b1, ((x - 1) \div n2) + 1), Seg(b2, ((x - 1) % n2) + 1)>>]
UniquePairs(b1, b2) == Uniq(AllPairs(b1, b2), <<>>)
=============================================================================
