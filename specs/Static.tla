------------------------------- MODULE Static -------------------------------
(* What it takes to create a g-function from parameters alone, and what each *)
(* part is made from.  Parts are terms: which parameters went where.         *)
EXTENDS Common
Pipes == {"SINGLE_UTUBE", "DOUBLE_UTUBE_PARALLEL", "DOUBLE_UTUBE_SERIES", "COAXIAL_ANNULAR_IN", "COAXIAL_ANNULAR_OUT"}
Coaxial == {"COAXIAL_ANNULAR_IN", "COAXIAL_ANNULAR_OUT"}
BCs == {"UHTR", "UBWT", "MIFT"}
\* parameters without a default that a network needs
NetParams == {"pipe", "pos", "r_in", "r_out", "k_s", "k_g", "k_p", "fluid", "pct", "eps", "m"}
Needed(bc) == IF bc = "MIFT" THEN NetParams ELSE {}
\* c.bc, c.pipe names; c.miss parameters left out; c.inl inlets of the boreholes
Legal(c) == /\ c.bc \in BCs
            /\ Needed(c.bc) \cap c.miss = {}
            /\ c.bc = "MIFT" => c.pipe \in Pipes
Inlets(inl) == Cardinality({i \in DOMAIN inl : inl[i] = -1})
\* places (1, 2) of the annulus and the inner pipe in pairs of parameters
Annulus(pipe) == IF pipe = "COAXIAL_ANNULAR_IN" THEN 1 ELSE 2
Inner(pipe) == 3 - Annulus(pipe)
(* Manual assembly: fluid, and for each borehole its pipe.  The flow of a    *)
(* channel is |m| / parts.                                                  *)
FluidOf(c) == [name |-> "given", pct |-> "given", temp |-> IF "temp" \in c.miss THEN "default" ELSE "given"]
Film(c, where, wall, parts) == [where |-> where, wall |-> wall, parts |-> parts, m |-> "abs", fluid |-> FluidOf(c)]
Wall(i) == [r_in |-> i, r_out |-> i, k_p |-> i]
PipeOf(c, b) ==
    LET n == Inlets(c.inl) IN
    [hole |-> b, dir |-> c.pipe, J |-> IF "J" \in c.miss THEN "default" ELSE "given",
     rev |-> IF "rev" \in c.miss THEN "default" ELSE "given",
     fp |-> IF c.pipe \in Coaxial
            THEN << Wall(Annulus(c.pipe)), Film(c, "annulus", "outer", n) >>
            ELSE << Wall(0), Film(c, "circle", "inner", IF c.pipe = "DOUBLE_UTUBE_PARALLEL" THEN 2 * n ELSE n) >>,
     ff |-> IF c.pipe \in Coaxial
            THEN << Film(c, "circle", "inner", n), Wall(Inner(c.pipe)), Film(c, "annulus", "inner", n) >> ELSE <<>>]
NetOf(c) == [pipes |-> [b \in DOMAIN c.inl |-> PipeOf(c, b)], inl |-> c.inl, cp |-> FluidOf(c), m |-> "given"]
Model(c) == IF c.bc = "MIFT" THEN [bc |-> c.bc, net |-> NetOf(c)] ELSE [bc |-> c.bc, net |-> <<>>]
=============================================================================
