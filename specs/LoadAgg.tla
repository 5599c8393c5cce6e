------------------------------- MODULE LoadAgg -------------------------------
(* Load aggregation of one heat source, as the three schemes of              *)
(* load_aggregation.py do it.                                                *)
(*                                                                           *)
(* A state s has                                                             *)
(*   kind  "CJ" (Claesson-Javed), "MLAA" or "Liu"                            *)
(*   par   MLAA: <<N0,N1,N2,N3>>; Liu: <<N1,N2,N3,W1,W2,W3>>; CJ: widths     *)
(*   hist  loads of all steps, oldest first (the last one is the current)    *)
(*   q     CJ: aggregated load of every cell                                 *)
(*   lev   MLAA, Liu: per aggregation level the blocks of time steps (newest *)
(*         first) whose loads are replaced by their mean                     *)
EXTENDS Common

CONSTANT Mut     \* "none", or the name of a deliberate design error

Steps(a, b) == [i \in 1..(a - b + 1) |-> a + 1 - i]        \* a, a-1, ..., b

----------------------------------------------------------------------------
\* Claesson & Javed: cell i has width w[i]; each step moves 1/w[i] of cell i on
NewCJ(w) == [kind |-> "CJ", par |-> w, hist |-> <<>>, q |-> Const(Len(w), 0), lev |-> <<>>]
ShiftCJ(w, q) ==
    [i \in 1..Len(w) |->
        IF i = 1 THEN 0
        ELSE LET wi == IF Mut = "cj-width" /\ w[i] > 1 THEN w[i] \div 2 ELSE w[i]
                 x == IF Mut = "cj-inflow" /\ w[i - 1] # w[i] THEN w[i - 1] ELSE w[i]
             IN  q[i] - RDiv(q[i], wi) + RDiv(q[i - 1], x)]

----------------------------------------------------------------------------
\* MLAA: the loads are cut in blocks by counting back from the current step
NewMLAA(p) == [kind |-> "MLAA", par |-> p, hist |-> <<>>, q |-> <<>>, lev |-> <<<<>>, <<>>, <<>>, <<>>, <<>>>>]
LevMLAA(p, nt) ==
    LET n0 == IF nt < p[1] THEN nt ELSE p[1]
        n1 == IF nt >= p[1] + p[2] THEN p[2] ELSE 0
        n2 == IF nt >= p[1] + p[2] + p[3] THEN p[3] ELSE 0
        n3 == IF nt >= p[1] + p[2] + p[3] + p[4] THEN p[4] ELSE 0
        e1 == nt - n0
        e2 == IF Mut = "mlaa-gap" /\ n2 > 0 THEN e1 - n1 - 1 ELSE e1 - n1
        e3 == e2 - n2
        e4 == e3 - n3
        Block(hi, n) == IF n = 0 THEN <<>> ELSE <<Steps(hi, hi - n + 1)>>
    IN  <<[i \in 1..n0 |-> <<nt + 1 - i>>], Block(e1, n1), Block(e2, n2), Block(e3, n3),
          Block(e4, e4)>>

----------------------------------------------------------------------------
\* Liu: when a level has N + W cells, its N oldest are merged in one cell of
\* the next level
NewLiu(p) == [kind |-> "Liu", par |-> p, hist |-> <<>>, q |-> <<>>, lev |-> <<<<>>, <<>>, <<>>, <<>>>>]
Merge(l, n) == Flat(SubSeq(l, Len(l) - n + 1, Len(l)))
Front(l, n) == SubSeq(l, 1, Len(l) - n)
MergeLiu(lev, k, n, w) ==
    LET thr == IF Mut = "liu-threshold" /\ k = 2 THEN n + w + 1 ELSE n + w
        cut == IF Mut = "liu-cut" /\ k = 2 THEN n - 1 ELSE n
        newest == SubSeq(lev[k], 1, n)
    IN  IF Len(lev[k]) < thr THEN lev
        ELSE [lev EXCEPT ![k] = IF Mut = "liu-newest" THEN SubSeq(lev[k], n + 1, Len(lev[k]))
                                ELSE Front(lev[k], cut),
                         ![k + 1] = <<IF Mut = "liu-newest" THEN Flat(newest) ELSE Merge(lev[k], n)>>
                                    \o lev[k + 1]]
LevLiu(p, lev, nt) ==
    LET a == [lev EXCEPT ![1] = <<<<nt>>>> \o lev[1]]
        b == MergeLiu(a, 1, p[1], p[4])
        c == IF b = a THEN b ELSE MergeLiu(b, 2, p[2], p[5])
    IN  IF c = b THEN c ELSE MergeLiu(c, 3, p[3], p[6])

----------------------------------------------------------------------------
\* Actions
Advance(s) ==      \* a new time step starts, without load
    LET nt == Len(s.hist) + 1 IN
    [s EXCEPT !.hist = Append(s.hist, 0),
              !.q = IF s.kind = "CJ" THEN ShiftCJ(s.par, s.q) ELSE s.q,
              !.lev = IF s.kind = "MLAA" THEN LevMLAA(s.par, nt)
                      ELSE IF s.kind = "Liu" THEN LevLiu(s.par, s.lev, nt) ELSE s.lev]
SetLoad(s, x) ==   \* the load of the current step, replacing any earlier one
    LET y == IF Mut = "set-adds" THEN s.hist[Len(s.hist)] + x ELSE x IN
    [s EXCEPT !.hist[Len(s.hist)] = y,
              !.q = IF s.kind = "CJ" THEN [s.q EXCEPT ![1] = y] ELSE s.q]

----------------------------------------------------------------------------
\* Observation: the aggregated load of every response factor increment
Blocks(s) == Flat(s.lev)
BlockMean(h, b) == RDiv(SumSeq([i \in 1..Len(b) |-> h[b[i]]]), Len(b))
Lags(s) ==
    IF s.kind = "CJ" THEN s.q
    ELSE Flat([k \in 1..Len(Blocks(s)) |->
                  Const(Len(Blocks(s)[k]), BlockMean(s.hist, Blocks(s)[k]))])
----------------------------------------------------------------------------
\* Properties of a state
\* every step is in exactly one block, in order, from the newest to the oldest
Partition(s) == s.kind # "CJ" => Flat(Blocks(s)) = Steps(Len(s.hist), 1)
\* documented number of loads per block
BlockSizes(s) ==
    /\ s.kind = "MLAA" => \A k \in 1..4 : \A i \in 1..Len(s.lev[k]) :
                              Len(s.lev[k][i]) = IF k = 1 THEN 1 ELSE s.par[k]
    /\ s.kind = "Liu" => \A k \in 1..4 : \A i \in 1..Len(s.lev[k]) :
                              Len(s.lev[k][i]) = (<<1, s.par[1], s.par[1] * s.par[2],
                                                   s.par[1] * s.par[2] * s.par[3]>>)[k]
\* Liu: a level never holds N + W cells, and keeps at least W once it has merged
LiuBounds(s) ==
    s.kind = "Liu" => \A k \in 1..3 : /\ Len(s.lev[k]) < s.par[k] + s.par[k + 3]
                                      /\ s.lev[k + 1] # <<>> => Len(s.lev[k]) >= s.par[k + 3]
\* energy of the cells is the energy of all loads, until one can
\* have left the last cell
RECURSIVE Dot(_, _, _)
Dot(u, v, n) == IF n = 0 THEN 0 ELSE u[n] * v[n] + Dot(u, v, n - 1)
Energy(s) ==
    s.kind = "CJ" =>
        (Len(s.hist) <= Len(s.q) => Dot(s.par, s.q, Len(s.q)) = SumSeq(s.hist))
Current(s) == s.kind = "CJ" => (Len(s.hist) > 0 => s.q[1] = s.hist[Len(s.hist)])
=============================================================================
