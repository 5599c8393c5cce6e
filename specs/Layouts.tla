------------------------------- MODULE Layouts ------------------------------
(* Layouts of borefields on a lattice.  Positions are pairs of integers:     *)
(* quarters of the spacing along the rows, and halves of the spacing of the  *)
(* rows (of the other direction).  A layout is a set of places; it is listed *)
(* row by row, each row from the left.                                       *)
EXTENDS Common

\* places <<column, row>>, counted from 0; the column in halves for staggered rows
Cols(n) == 0..(n - 1)
Rect(n, m) == {<<2 * i, j>> : i \in Cols(n), j \in Cols(m)}
Stag(n, m, last) ==
    IF n = 1 \/ m = 1 THEN Rect(n, m)
    ELSE {<<2 * i + (j % 2), j>> : i \in Cols(n), j \in Cols(m)}
         \ (IF last THEN {} ELSE {<<2 * (n - 1) + 1, j>> : j \in Cols(m)})
Ell(n, m) == {p \in Rect(n, m) : p[1] = 0 \/ p[2] = 0}
You(n, m) == {p \in Rect(n, m) : p[1] = 0 \/ p[1] = 2 * (n - 1) \/ p[2] = 0}
Box(n, m) == {p \in Rect(n, m) : p[1] = 0 \/ p[1] = 2 * (n - 1) \/ p[2] = 0 \/ p[2] = m - 1}
Places(kind, n, m, last) ==
    CASE kind = "rectangle" -> Rect(n, m)
      [] kind \in {"staggered", "dense"} -> Stag(n, m, last)
      [] kind = "L" -> Ell(n, m)
      [] kind = "U" -> You(n, m)
      [] kind = "box" -> Box(n, m)

Before(p, q) == p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1])
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>>
             ELSE LET p == CHOOSE x \in S : \A y \in S : x = y \/ Before(x, y) IN <<p>> \o Listed(S \ {p})
Field(kind, n, m, last) == Listed(Places(kind, n, m, last))

\* number of boreholes
Count(kind, n, m, last) ==
    CASE kind = "rectangle" -> n * m
      [] kind \in {"staggered", "dense"} -> n * m - (IF last \/ n = 1 \/ m = 1 THEN 0 ELSE m \div 2)
      [] kind = "L" -> n + m - 1
      [] kind = "U" -> IF n = 1 THEN m ELSE n + 2 * (m - 1)
      [] kind = "box" -> IF n = 1 \/ m = 1 THEN n * m ELSE 2 * (n + m) - 4

\* in quarters along the rows and halves across
Pos(p) == <<2 * p[1], 2 * p[2]>>
\* the center of the layout is the default origin
Center(kind, n, m, last) ==
    <<IF kind \in {"staggered", "dense"} /\ last /\ n > 1 /\ m > 1 THEN 2 * n - 1 ELSE 2 * (n - 1), m - 1>>
\* the sixteen winds, as sequences of letters; angles in sixteenths of a turn from the east,
\* through the north: each wind is in the middle of those it is named after
Main == [E |-> 0, N |-> 4, W |-> 8, S |-> 12]
Quarters == {<<x, y>> : x \in {"N", "S"}, y \in {"E", "W"}}
Winds == {<<x>> : x \in DOMAIN Main} \cup Quarters
         \cup UNION {{<<q[1]>> \o q, <<q[2]>> \o q} : q \in Quarters}
Apart(a, b) == LET d == (a - b + 32) % 16 IN Min2(d, 16 - d)
Middle(a, b) == CHOOSE m \in 0..15 : Apart(m, a) = Apart(m, b) /\ 2 * Apart(m, a) = Apart(a, b)
RECURSIVE Wind(_)
Wind(w) == IF Len(w) = 1 THEN Main[w[1]] ELSE Middle(Main[w[1]], Wind(Tail(w)))
\* the wind from which another comes
Opposite(w) == LET o == [E |-> "W", W |-> "E", N |-> "S", S |-> "N"] IN [k \in DOMAIN w |-> o[w[k]]]
=============================================================================
