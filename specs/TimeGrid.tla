------------------------------ MODULE TimeGrid ------------------------------
(* Time grids of utilities.py, in time steps.  The generators append cells   *)
(* while the end of the last cell is before tmax (in 1/1000 time steps).     *)
EXTENDS Common
CONSTANT GMut
RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)

\* width of cell i
WidthCJ(cpl, i) == Pow2((IF GMut = "floor" THEN (i \div cpl) + 1 ELSE (i + cpl - 1) \div cpl) - 1)
WidthMP(nec, i) == IF i <= nec THEN 1 ELSE Pow2(i - nec)
Width(kind, p, i) == IF kind = "CJ" THEN WidthCJ(p, i) ELSE WidthMP(p, i)

\* widths of all cells of a grid that covers tmax
RECURSIVE Grow(_, _, _, _, _)
Grow(kind, p, tmax, ws, t) ==
    IF 1000 * t >= tmax THEN ws
    ELSE LET w == Width(kind, p, Len(ws) + 1) IN Grow(kind, p, tmax, Append(ws, w), t + w)
Grid(kind, p, tmax) == Grow(kind, p, tmax, <<>>, 0)
Ends(ws) == [i \in 1..Len(ws) |-> SumSeq(SubSeq(ws, 1, i))]
=============================================================================
