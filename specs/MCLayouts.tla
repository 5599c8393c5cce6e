------------------------------ MODULE MCLayouts -----------------------------
(* The generators as loops that place one borehole at a time.                *)
EXTENDS Layouts, TLC
CONSTANTS NMax, Mut
VARIABLES kind, n, m, last, i, j, out, done
vars == <<kind, n, m, last, i, j, out, done>>
Kinds == {"rectangle", "staggered", "L", "U", "box"}
Init == /\ kind \in Kinds /\ n \in 1..NMax /\ m \in 1..NMax /\ last \in BOOLEAN
        /\ i = 0 /\ j = 0 /\ out = <<>> /\ done = FALSE
\* the places of row j of the loops
RowOf ==
    CASE kind = "rectangle" -> [k \in 1..n |-> 2 * (k - 1)]
      [] kind = "staggered" ->
           IF (n = 1 /\ Mut # "single") \/ m = 1 THEN [k \in 1..n |-> 2 * (k - 1)]
           ELSE [k \in 1..(IF last \/ (j % 2 = (IF Mut = "parity" THEN 1 ELSE 0)) THEN n ELSE n - 1) |-> 2 * (k - 1) + (j % 2)]
      [] kind = "L" -> IF j = 0 THEN [k \in 1..n |-> 2 * (k - 1)] ELSE <<0>>
      [] kind = "U" -> IF j = 0 THEN [k \in 1..n |-> 2 * (k - 1)]
                       ELSE [k \in 1..(IF Mut = "narrow" THEN 2 ELSE Min2(n, 2)) |-> 2 * (k - 1) * (n - 1)]
      [] kind = "box" -> IF j = 0 \/ j = m - 1 THEN [k \in 1..n |-> 2 * (k - 1)]
                         ELSE [k \in 1..(IF Mut = "narrow" THEN 2 ELSE Min2(n, 2)) |-> 2 * (k - 1) * (n - 1)]
Place == /\ ~done
         /\ IF i < Len(RowOf)
            THEN out' = Append(out, <<RowOf[i + 1], j>>) /\ i' = i + 1 /\ UNCHANGED <<j, done>>
            ELSE /\ i' = 0 /\ UNCHANGED out
                 /\ IF j < m - 1 THEN j' = j + 1 /\ UNCHANGED done
                    ELSE IF Mut = "top" /\ kind = "box" /\ m = 1 /\ j = 0 THEN j' = j + 1 /\ UNCHANGED done
                    ELSE done' = TRUE /\ UNCHANGED j
         /\ UNCHANGED <<kind, n, m, last>>
Next == Place
Spec == Init /\ [][Next]_vars
Placed == done => out = Field(kind, n, m, last)
Distinct == \A a, b \in 1..Len(out) : a # b => out[a] # out[b]
Counted == done => Len(out) = Count(kind, n, m, last)
\* the default origin is the middle of the extent of the layout
Central == done =>
    LET xs == {p[1] : p \in Range(out)}  ys == {p[2] : p \in Range(out)} IN
    Center(kind, n, m, last) = <<MinOf(xs) + MaxOf(xs), MinOf(ys) + MaxOf(ys)>>
\* the winds in the order they are listed by the code
Listing == LET c == <<<<"E">>, <<"E", "N", "E">>, <<"N", "E">>, <<"N", "N", "E">>, <<"N">>, <<"N", "N", "W">>, <<"N", "W">>, <<"W", "N", "W">>,
                      <<"W">>, <<"W", "S", "W">>, <<"S", "W">>, <<"S", "S", "W">>, <<"S">>, <<"S", "S", "E">>, <<"S", "E">>, <<"E", "S", "E">>>> IN
           IF Mut = "winds" THEN [c EXCEPT ![14] = c[16], ![16] = c[14]] ELSE c
Compass == out = <<>> /\ j = 0 =>
    /\ Range(Listing) = Winds /\ \A k \in 1..16 : Wind(Listing[k]) = k - 1
    /\ \A w \in Winds : Opposite(w) \in Winds /\ Apart(Wind(w), Wind(Opposite(w))) = 8
=============================================================================
