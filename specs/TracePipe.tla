----------------------------- MODULE TracePipe ------------------------------
(* Recorded pipes.  Temperatures share one scale; heat rates are scaled so   *)
(* that C (heat capacity rates of circuits) times temperature is a heat.     *)
EXTENDS TraceBase, Pipe
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>

AllFin(s) == \A i \in 1..Len(s) : s[i] # NaN
RECURSIVE TopSum(_, _)
TopSum(e, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN
                e.top[Up(e.kind, e.n, e.rev, i)] + TopSum(e, S \ {i})
RECURSIVE Dot(_, _, _)
Dot(s, t, k) == IF k = 0 THEN 0 ELSE s[k] * t[k] + Dot(s, t, k - 1)

PipeClauses(e) ==
    LET n == e.n  nc == Circuits(e.kind, n)
        fin == AllFin(e.tin) /\ AllFin(e.tout) /\ AllFin(e.top) /\ AllFin(e.bot) /\ AllFin(e.qs) /\ AllFin(e.qf)
               /\ e.qt # NaN
        maxC == MaxSeq(e.C)
    IN  [ Finite |-> fin,
          Shapes |-> Len(e.tout) = nc /\ Len(e.top) = 2 * n /\ Len(e.bot) = 2 * n /\ Len(e.qf) = nc,
          \* the profile starts at the inlet temperature ...
          Head |-> fin => \A i \in 1..n : LET f == Feeds(e.kind, n, e.rev, i) IN
                      Close(e.top[Down(e.kind, n, e.rev, i)],
                            IF f = 0 THEN e.tin[CircOf(e.kind, i)] ELSE e.top[Up(e.kind, n, e.rev, f)], 3),
          \* ... the pipes meet at the bottom ...
          Bottom |-> fin => \A i \in 1..n : Close(e.bot[i], e.bot[n + i], 3),
          \* ... and it ends at the outlet temperature
          Outlet |-> fin => \A k \in 1..nc : LET S == Last(e.kind, n, e.rev, k) IN
                        Abs(Cardinality(S) * e.tout[k] - TopSum(e, S)) <= 3 * Cardinality(S),
          FluidHeat |-> fin => \A k \in 1..nc : Abs(e.qf[k] - e.C[k] * (e.tout[k] - e.tin[k])) <= 2 * e.C[k] + 2,
          SegmentHeat |-> fin => Abs(SumSeq(e.qs) - SumSeq(e.qf)) <= 4 * maxC * nc + Len(e.qs),
          TotalHeat |-> fin => Abs(e.qt - SumSeq(e.qf)) <= 2 + nc,
          InletForHeat |-> CloseSeq(e.tin2, e.tin, 4),
          HeatForInlet |-> CloseSeq(e.qf2, e.qwant, 6),
          \* with one inlet temperature and one wall temperature, the outlet is in between
          \* (if no delta-circuit resistance is negative)
          Bounds |-> fin /\ e.uniform /\ e.pos => \A k \in 1..nc :
                        /\ e.tout[k] >= Min2(e.tin[k], e.tb) - 3 /\ e.tout[k] <= Max2(e.tin[k], e.tb) + 3,
          Effective |-> fin /\ e.rq # <<>> => Abs(2 * e.rq[1] - (2 * e.tb - e.tin[1] - e.tout[1])) <= 8 ]

\* heat balance of the fluid of every pipe over a short depth interval
\* T[k][i]: temperature of pipe i at the start, middle and end; g[i][j]:
\* conductances of the interval over the heat capacity rate of pipe i, times
\* gs; the tolerance bounds the effect of rounding temperatures and g
LocalClauses(e) ==
    LET n == e.n  np == 2 * n
        down(i) == \E j \in 1..n : Down(e.kind, n, e.rev, j) = i
        flux(k, i) == SumSeq([j \in 1..np |-> e.g[i][j] * (IF j = i THEN e.tb - e.T[k][i] ELSE e.T[k][j] - e.T[k][i])])
        mean(i) == (RDiv(flux(1, i), e.gs) + 4 * RDiv(flux(2, i), e.gs) + RDiv(flux(3, i), e.gs))
        gain(i) == IF down(i) THEN e.T[3][i] - e.T[1][i] ELSE e.T[1][i] - e.T[3][i]
    IN  [ LocalBalance |-> (\A k \in 1..3 : AllFin(e.T[k])) /\ \A i \in 1..np : Abs(6 * gain(i) - mean(i)) <= 30 + (150000 * np) \div e.gs ]

\* the same wall temperatures on finer segments
RefineClauses(e) == [ RefineOutlet |-> CloseSeq(e.tout1, e.tout2, 4),
                      RefineProfile |-> CloseMat(e.prof1, e.prof2, 4),
                      RefineHeat |-> CloseSeq(e.qs1, e.qs2, 8) ]
SameClauses(e) == [ SameResult |-> CloseSeq(e.v, e.w, 20) ]

\* results are numbers when the argument they correspond to is a number: the
\* fluid for inlets, outlets and circuits, the wall for segments
FormClauses(e) ==
    LET for(form, k) == IF form = "number" THEN <<>> ELSE <<k>>
    IN  [ FluidForm |-> \A s \in {e.inlet, e.outlet, e.heat} : s = for(e.fluid, e.nc),
          WallForm |-> e.segments = for(e.wall, e.nseg),
          TotalForm |-> e.total = <<>>,
          DepthForm |-> e.depth = <<2 * e.n>> /\ e.depths = <<e.nz, 2 * e.n>> ]

Clauses(e) ==
    IF e.ev = "Pipe" THEN PipeClauses(e)
    ELSE IF e.ev = "Local" THEN LocalClauses(e)
    ELSE IF e.ev = "Refine" THEN RefineClauses(e)
    ELSE IF e.ev = "Same" THEN SameClauses(e)
    ELSE IF e.ev = "Form" THEN FormClauses(e)
    ELSE IF e.ev = "Exc" THEN [ NoException |-> FALSE ]
    ELSE [ Known |-> e.ev = "Reset" ]

Next == /\ l <= NLines
        /\ bad' = AddAll(bad, l, Failing(Clauses(Trace[l])))
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
