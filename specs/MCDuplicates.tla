---------------------------- MODULE MCDuplicates ----------------------------
(* Search of the pairs, then removal of the second borehole of each pair,    *)
(* for all fields of N boreholes in K clusters.                              *)
EXTENDS Duplicates, TLC, Json
CONSTANTS N, K, Mut, Gen
VARIABLES where, i, j, found, removed, phase
vars == <<where, i, j, found, removed, phase>>
Init == /\ where \in UNION {[1..n -> 1..K] : n \in 1..N}
        /\ i = 1 /\ j = 2 /\ found = <<>> /\ removed = {} /\ phase = "find"
P == [k \in 1..Len(where) |-> <<10 * where[k], 0>>]
Find == /\ phase = "find"
        /\ IF i >= Len(where) THEN phase' = "remove" /\ i' = 1 /\ UNCHANGED <<j, found>>
           ELSE IF j > (IF Mut = "next" THEN Min2(i + 1, Len(where)) ELSE Len(where)) THEN i' = i + 1 /\ j' = i + 2 /\ UNCHANGED <<found, phase>>
           ELSE /\ j' = j + 1 /\ UNCHANGED <<i, phase>>
                /\ found' = IF Dup(P, 3, i, j) THEN Append(found, <<i, j>>) ELSE found
        /\ UNCHANGED <<where, removed>>
Remove == /\ phase = "remove"
          /\ IF i > Len(found) THEN phase' = "end" /\ UNCHANGED <<i, removed>>
             ELSE /\ i' = i + 1 /\ UNCHANGED phase
                  /\ removed' = CASE Mut = "first" -> removed \union {found[i][1]}
                                  [] Mut = "both" -> removed \union {found[i][1], found[i][2]}
                                  [] Mut = "shift" -> removed \union {found[i][2] - (IF Cardinality(removed) > 1 THEN 1 ELSE 0)}
                                  [] OTHER -> removed \union {found[i][2]}
          /\ UNCHANGED <<where, j, found>>
Next == Find \/ Remove
Spec == Init /\ [][Next]_vars
Left == SelectSeq([k \in 1..Len(where) |-> k], LAMBDA k : k \notin removed)
InvFound == phase # "find" => Range(found) = Pairs(P, 3) /\ Cardinality(Range(found)) = Len(found)
InvKept == phase = "end" => Left = Kept(P, 3)
\* one of every cluster, the first, in order
InvClusters == phase = "end" =>
    /\ \A c \in Range(where) : Cardinality({k \in Range(Left) : where[k] = c}) = 1
    /\ \A k \in Range(Left) : \A q \in 1..k - 1 : where[q] # where[k]
    /\ IsIncreasing(Left)
    /\ Pairs([k \in 1..Len(Left) |-> P[Left[k]]], 3) = {}
Emit == Gen /\ phase = "find" /\ i = 1 /\ j = 2 => PrintT("BEH " \o ToJson(where))
Start == ~Gen \/ (phase = "find" /\ i = 1 /\ j = 2)
=============================================================================
