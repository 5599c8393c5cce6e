----------------------------- MODULE MCSegments -----------------------------
(* A borehole is cut from the top: each segment starts where the last ended. *)
EXTENDS Segments, TLC
CONSTANTS N, W, Mut
VARIABLES w, s, z, i
vars == <<w, s, z, i>>
Init == w \in UNION {[1..n -> 1..W] : n \in 1..N} \union {Mesh(n, q) : n \in 1..N, q \in 1..3} /\ s = <<>> /\ z = 0 /\ i = 1
Cut == /\ i <= Len(w)
       /\ s' = Append(s, IF Mut = "own" THEN (i - 1) * w[i] ELSE IF Mut = "middle" THEN z + w[i] \div 2 ELSE z)
       /\ z' = z + w[i] /\ i' = i + 1 /\ UNCHANGED w
Next == Cut
Spec == Init /\ [][Next]_vars
Tiling == i > Len(w) => /\ \A k \in 1..SumSeq(w) : Cover(s, w, k) = 1
                        /\ s = Starts(w) /\ z = SumSeq(w)
MeshLaws == \A n \in 1..2 * N, q \in 1..3 :
    LET m == Mesh(n, q)  h == (n + 1) \div 2 IN
    /\ m = Rev(m) /\ m[1] = 1
    /\ \A k \in 1..h - 1 : m[k + 1] = q * m[k]
    \* the polynomial that the factor solves (the total in units of the end length)
    /\ n % 2 = 0 => (q - 1) * SumSeq(m) = 2 * (Power(q, n \div 2) - 1)
    /\ n % 2 = 1 => (q - 1) * SumSeq(m) = Power(q, n \div 2) - 1 + Power(q, n \div 2 + 1) - 1
=============================================================================
