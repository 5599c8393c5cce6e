------------------------------ MODULE MCNetwork ------------------------------
(* Verification of a connectivity vector as the code does it, walking to the *)
(* inlet from every borehole; all vectors of at most N boreholes.            *)
EXTENDS Network, TLC, Json
CONSTANTS N, Mut, Gen
VARIABLES c, k, cur, n, verdict
vars == <<c, k, cur, n, verdict>>

Vectors == UNION {[1..m -> -2..m] : m \in 1..N}
Init == c \in Vectors /\ k = 0 /\ cur = -1 /\ n = 0 /\ verdict = "check"
Bad == verdict' = "reject" /\ UNCHANGED <<c, k, cur, n>>
\* python indexing: -2 is the last borehole but one
PyAt(i) == IF i >= 0 THEN At(c, i) ELSE At(c, i + Len(c))
Range0 == /\ verdict = "check"
          /\ IF MaxSeq(c) >= Len(c) THEN Bad
             ELSE verdict' = "next" /\ UNCHANGED <<c, k, cur, n>>
NextBore == /\ verdict = "next"
            /\ IF k = Len(c) THEN verdict' = "ends" /\ UNCHANGED <<c, k, cur, n>>
               ELSE LET x == c[k + 1] IN
                    IF x # -1 /\ CountOf(c, x) > 1 /\ Mut # "fork" THEN Bad
                    ELSE k' = k + 1 /\ cur' = x /\ n' = 0 /\ verdict' = "walk" /\ UNCHANGED c
Walk == /\ verdict = "walk"
        /\ IF cur = -1 THEN verdict' = "next" /\ UNCHANGED <<c, k, cur, n>>
           ELSE IF cur < -Len(c) \/ cur >= Len(c) THEN Bad          \* IndexError
           ELSE IF n + 1 > (IF Mut = "short" THEN Len(c) - 2 ELSE Len(c)) /\ Mut # "loop" THEN Bad
           ELSE IF Mut = "loop" /\ n + 1 > Len(c) THEN verdict' = "next" /\ UNCHANGED <<c, k, cur, n>>
           ELSE cur' = PyAt(cur) /\ n' = n + 1 /\ UNCHANGED <<c, k, verdict>>
\* as many inlets as outlets
Ends == /\ verdict = "ends"
        /\ IF CountOf(c, -1) # Cardinality(Leaves(c)) /\ Mut \notin {"ends", "fork"} THEN Bad
           ELSE verdict' = "accept" /\ UNCHANGED <<c, k, cur, n>>
Next == Range0 \/ NextBore \/ Walk \/ Ends
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the walk accepts exactly the declarative definition, and ends
InvVerdict == /\ verdict = "accept" => Accept(c)
              /\ verdict = "reject" => ~Accept(c)
Ended == <>(verdict \in {"accept", "reject"})
\* balances of accepted networks, for both directions: the heat of all
\* boreholes is that of the mixed outlet
Temps == [1..Len(c) -> {0, 1, 3}]
InvBalance ==
    verdict = "accept" /\ Len(c) <= 4 =>
    \A rev \in BOOLEAN : \A tout \in (IF Len(c) <= 3 THEN Temps ELSE {[i \in 1..4 |-> i * i]}) :
    LET C == [i \in 1..Len(Inlets(c)) |-> 2 * i + 1]
        tin == 5
    IN /\ Len(Inlets(c)) = Cardinality(Leaves(c))
       /\ HeatSum(c, rev, C, tin, tout) = MixSum(c, rev, C, tout) - SumSeq(C) * tin
       \* each circuit has exactly one exit in each direction
       /\ \A q \in 1..Len(C) : Cardinality({i \in Exits(c, rev) : Circuit(c, i) = q}) = 1
Emit == Gen /\ verdict = "accept" => PrintT("BEH " \o ToJson(c))
=============================================================================
