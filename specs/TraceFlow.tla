------------------------------ MODULE TraceFlow -----------------------------
(* Recorded ramps of the flow rate, resistances of pipes, fluids, and        *)
(* temperature fields around pipes.                                          *)
EXTENDS TraceBase, Flow
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
Rel(x) == 3 + Abs(x) \div 50000
AtLimit(re) == Abs(re - Lower) <= 1
NuOk(e, k) ==
    LET re == e.re[k]  nu == e.nu[k] IN
    IF Regime(re) = "laminar" THEN Close(nu, e.lam, 2)
    ELSE IF Regime(re) = "transition" THEN
        \* the turbulent value of the friction factor of this flow, or of the upper limit
        \E t \in {e.gn[k], e.gnup} : Close(nu, Between(e.lam, t, (re - Lower) \div 170), Rel(t) + 2 + (Abs(t - e.lam) \div 2000))
    ELSE Close(nu, e.gn[k], Rel(nu)) \/ (e.annulus /\ Close(nu, e.gn2[k], Rel(nu)))
Clauses(e) ==
    IF e.ev = "Ramp" THEN
      LET n == Len(e.re) IN
      [ Shape |-> Len(e.f) = n /\ Len(e.nu) = n,
        Laminar |-> \A k \in 1..n : Regime(e.re[k]) = "laminar" /\ ~AtLimit(e.re[k]) => Close(e.fre[k], 6400000, 20),
        Colebrook |-> \A k \in 1..n : Regime(e.re[k]) # "laminar" /\ ~AtLimit(e.re[k]) => Close(e.res[k], 0, 300),
        Nusselt |-> \A k \in 1..n : NuOk(e, k),
        Monotone |-> \A k \in 1..n - 1 : e.re[k] <= e.re[k + 1] => e.nu[k] <= e.nu[k + 1] + Rel(e.nu[k]),
        Magnitude |-> e.fneg = e.f /\ e.nuneg = e.nu ]
    ELSE IF e.ev = "Limit" THEN
      \* values right below and right above a limit
      [ Continuous |-> \A k \in 1..Len(e.below) : Close(e.below[k], e.above[k], Rel(e.below[k]) + 2) ]
    ELSE IF e.ev = "Resist" THEN
      [ FluidToPipe |-> e.err = "" /\ Close(e.rfp, FluidToPipe(e.kind, e.parts), 20) /\ e.rfpneg = e.rfp,
        FluidToFluid |-> IF FluidToFluid(e.kind, e.parts) = 0 THEN e.errff = "ValueError"
                         ELSE e.errff = "" /\ Close(e.rff, FluidToFluid(e.kind, e.parts), 20),
        Positive |-> e.rfp > 0 ]
    ELSE IF e.ev = "Fluid" THEN
      [ Kinematic |-> Close(e.nu, 10000000, 10),
        Volumetric |-> Close(e.rhocp, 10000000, 10),
        Prandtl |-> Close(e.pr, 10000000, 1000),
        Alias |-> e.alias,
        Positive |-> e.positive ]
    ELSE IF e.ev = "Table" THEN
        [ Rows |-> e.err = "" /\ e.columns # <<>> /\ \A k \in DOMAIN e.columns : e.columns[k] = e.n,
          Listed |-> e.values = Const(e.n, TRUE), Text |-> e.text = Const(e.n, TRUE) ]
    ELSE IF e.ev = "Bad" THEN [ Rejected |-> e.err = "ValueError" ]
    ELSE IF e.ev = "Field" THEN
      [ Resistances |-> CloseSeq(e.tf, e.rq, e.tol),
        Linear |-> CloseSeq(e.tf2, e.lin, e.tol),
        InPipe |-> CloseSeq(e.inpipe, e.tf, 5),
        PipeWall |-> CloseSeq(e.pipewall, e.tf, 20),
        BoreholeWall |-> \A k \in 1..Len(e.wall) : Close(e.wall[k], e.tb, 20),
        Continuous |-> CloseSeq(e.inside, e.outside, 200),
        Ground |-> CloseSeq(e.ground, e.line, 20) ]
    ELSE IF e.ev = "Exc" THEN [ NoException |-> FALSE ]
    ELSE IF e.ev = "Finding" THEN [ c \in {e.what} |-> e.ok ]
    ELSE [ Known |-> e.ev = "Reset" ]
Next == /\ l <= NLines
        /\ bad' = AddAll(bad, l, Failing(Clauses(Trace[l])))
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
