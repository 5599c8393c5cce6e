-------------------------------- MODULE Eval ---------------------------------
(* Values over a list of times (integers, 0 first).  Times up to the         *)
(* threshold Thr are one grid time, the values of which are scaled; others   *)
(* depend on the grid up to them.  A value is described by the grid time, the *)
(* loads it was found from, the times of the responses, and its numerator    *)
(* below the threshold (-1 above).  A time given again is no other time.     *)
EXTENDS Common
RECURSIVE Distinct(_)
Distinct(ts) == IF Len(ts) <= 1 THEN ts
                ELSE IF ts[1] = ts[2] THEN Distinct(Tail(ts)) ELSE <<ts[1]>> \o Distinct(Tail(ts))
\* place of the i-th time among distinct ones
Place(ts, i) == Cardinality({ts[j] : j \in 1..i})
Low(ts, thr) == Cardinality({i \in DOMAIN ts : ts[i] <= thr})
Grid(ts, thr) == LET k == Low(ts, thr) IN IF k = 0 THEN ts ELSE <<thr>> \o SubSeq(ts, k + 1, Len(ts))
\* what the value at ts[i] depends on
Key(ts, i, thr) ==
    LET d == Distinct(ts)  j == Place(ts, i)  k == Low(d, thr)  g == Grid(d, thr) IN
    IF j <= k THEN <<thr>> ELSE SubSeq(g, 1, IF k = 0 THEN j ELSE j - k + 1)
Want(ts, i, thr) ==
    LET y == Key(ts, i, thr) IN
    [t |-> y[Len(y)], hist |-> SubSeq(y, 1, Len(y) - 1), resp |-> y, num |-> IF ts[i] <= thr THEN ts[i] ELSE -1]
=============================================================================
