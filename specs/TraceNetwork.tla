---------------------------- MODULE TraceNetwork ----------------------------
(* Recorded networks.  Temperatures tin (inlet), ti, to (boreholes), tn      *)
(* (network outlet) and heat rates qs (segments), qf (boreholes), qn         *)
(* (network) are scaled; C are heat capacity rates of circuits in the unit   *)
(* of the heat rates.                                                        *)
EXTENDS TraceBase, Network
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>

NetClauses(e) ==
    LET c == e.c  n == Len(c)  r == Rates(c, e.C)  S == SumSeq(e.C)
        in(i) == LET s == Source(c, e.rev, i) IN IF s = -1 THEN e.tin ELSE e.to[s + 1]
        fin == /\ \A i \in 1..n : e.ti[i] # NaN /\ e.to[i] # NaN /\ e.qf[i] # NaN
               /\ e.tn # NaN /\ e.qn # NaN
    IN  [ Finite |-> fin,
          Routing |-> \A i \in 1..n : Close(e.ti[i], in(i - 1), 2),
          Mixing |-> fin => Abs(S * e.tn - MixSum(c, e.rev, e.C, e.to)) <= 2 * S,
          BoreholeHeat |-> fin => \A i \in 1..n : Abs(e.qf[i] - r[i] * (e.to[i] - e.ti[i])) <= 2 * r[i] + 2,
          SegmentHeat |-> fin => \A i \in 1..n : Abs(SumSeq(e.qs[i]) - e.qf[i]) <= 2 + Len(e.qs[i]),
          NetworkHeat |-> fin => Abs(SumSeq(e.qf) - e.qn) <= 2 + n,
          NetworkBalance |-> fin => Abs(e.qn - S * (e.tn - e.tin)) <= 2 * S + 2,
          Resistance |-> /\ e.tn1 # NaN /\ e.rq # NaN
                         /\ Abs(e.tin + e.tn1 - 2 * e.tb1 - 2 * e.rq) <= 8,
          InletForHeat |-> Close(e.tin2, e.tin, 3),
          HeatForInlet |-> Close(e.qn2, e.qwant, 3) ]

\* network results are numbers when the fluid argument is a number
FormClauses(e) ==
    LET for == IF e.form = "number" THEN <<>> ELSE <<1>>
        s == e.shape
    IN  [ NetworkForm |-> /\ s.network_inlet_temperature = for /\ s.network_outlet_temperature = for
                          /\ s.network_heat_extraction_rate = for,
          BoreholeForm |-> /\ s.inlet_temperature = <<e.n>> /\ s.outlet_temperature = <<e.n>>
                           /\ s.fluid_heat_extraction_rate = <<e.n>>
                           /\ s.borehole_heat_extraction_rate = <<e.nseg>> ]

Clauses(e) ==
    IF e.ev = "Build" THEN [ Accepted |-> Accept(e.c) => e.ok,
                             Rejected |-> ~Accept(e.c) => ~e.ok,
                             Topology |-> e.ok /\ Accept(e.c) =>
                                 /\ e.nin = Len(Inlets(e.c)) /\ e.nout = Len(Inlets(e.c)) ]
    ELSE IF e.ev = "Length" THEN [ RejectsLength |-> ~e.ok ]
    ELSE IF e.ev = "Net" THEN NetClauses(e)
    ELSE IF e.ev = "Form" THEN FormClauses(e)
    ELSE IF e.ev = "Exc" THEN [ NoException |-> FALSE ]
    ELSE IF e.ev = "Raise" THEN [ RejectsInput |-> e.raised ]
    ELSE [ Known |-> e.ev = "Reset" ]

Next == /\ l <= NLines
        /\ bad' = AddAll(bad, l, Failing(Clauses(Trace[l])))
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
