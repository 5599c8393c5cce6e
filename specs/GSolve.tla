------------------------------- MODULE GSolve --------------------------------
(* Solution of a field over a list of times.  Times are integers, tau[1] >   *)
(* 0; loads are constant over each step, from tau[k - 1] to tau[k].  To find *)
(* temperatures at the end of the list, the loads are replaced by the        *)
(* averages over steps of the same lengths in the opposite order, such that  *)
(* each of them started a time ago at which responses are known.             *)
EXTENDS Common
Dt(tau) == [k \in 1..Len(tau) |-> IF k = 1 THEN tau[1] ELSE tau[k] - tau[k - 1]]
Clip(x, lo, hi) == Max2(lo, Min2(x, hi))
\* energy extracted until time t
Energy(tau, Q, t) ==
    LET d == Dt(tau) IN SumSeq([k \in 1..Len(tau) |-> Q[k] * Clip(t - (tau[k] - d[k]), 0, d[k])])
\* start of steps of the opposite list, followed by its end
Edges(tau) == LET n == Len(tau) IN [k \in 1..n + 1 |-> IF k = n + 1 THEN tau[n] ELSE tau[n] - tau[n + 1 - k]]
\* energy extracted in each of them, and their lengths
Rebuilt(tau, Q) == LET e == Edges(tau) IN
    [k \in 1..Len(tau) |-> Energy(tau, Q, e[k + 1]) - Energy(tau, Q, e[k])]
Lengths(tau) == Rev(Dt(tau))
\* responses are linear between known values, zero at zero
Piece(tau, t) == MinOf({k \in 1..Len(tau) : t <= tau[k]} \union {Len(tau)})
At(tau, h, t) ==
    LET k == Piece(tau, t)  t0 == IF k = 1 THEN 0 ELSE tau[k - 1]  h0 == IF k = 1 THEN 0 ELSE h[k - 1] IN
    h0 + RDiv((h[k] - h0) * (t - t0), tau[k] - t0)
=============================================================================
