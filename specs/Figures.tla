------------------------------ MODULE Figures -------------------------------
(* What figures of a solution show.  A request r names the kind of figure,   *)
(* the boreholes r.chosen (a sequence in any order; r.all: none is named,    *)
(* all are shown), the time (0: the last one), whether inclinations are      *)
(* drawn, and the flow conditions r.which (r.every: none is named, all).     *)
(* A solution s has s.v (its version), s.nb boreholes, s.nf conditions (0:   *)
(* the flow is no list) and s.nt times.                                      *)
EXTENDS Common
Kinds == {"rates", "temperatures", "rate profiles", "temperature profiles"}
Chosen(r, s) == IF r.all THEN [i \in 1..s.nb |-> i] ELSE r.chosen
Conditions(r, s) == IF s.nf = 0 THEN <<0>> ELSE IF r.every THEN [i \in 1..s.nf |-> i] ELSE r.which
Values(r, s, b, n) == [v |-> s.v, kind |-> r.kind, b |-> b, n |-> n,
                       at |-> IF r.kind \in {"rates", "temperatures"} THEN 0 ELSE IF r.at = 0 THEN s.nt ELSE r.at]
\* a borehole in a figure: whether it is chosen, its curve, and its inclination
Black == 0
Figure(r, s, n) == [title |-> n,
    marks |-> [b \in 1..s.nb |-> [curve |-> IF b \in Range(Chosen(r, s)) THEN {Values(r, s, b, n)} ELSE {}, tilt |-> r.tilt]]]
Shown(r, s) == LET c == Conditions(r, s) IN [k \in DOMAIN c |-> Figure(r, s, c[k])]
=============================================================================
