------------------------------- MODULE Cases --------------------------------
(* What a statement of a case means: which boundary condition, solver, flow, *)
(* heat capacity and options a request for a g-function stands for, however  *)
(* it is stated: through the class or a function, with a network that stores *)
(* flows or not, with numbers of any kind.                                   *)
EXTENDS Common
BCs == {"UHTR", "UBWT", "MIFT"}
Methods == {"detailed", "similarities", "equivalent"}
Entries == {"class", "field", "uhtr", "ubwt", "equal", "mixed"}
\* the class, and its counterpart of borefields
Direct == {"class", "field"}
Tolerances == {"disTol", "tol", "dtype", "disp"}
Discretization == {"nSegments", "segment_ratios", "kind"}
OnlyClass == {"linear_threshold", "approximate_FLS", "nFLS", "mQuad", "kClusters", "profiles"}
Options == Tolerances \cup Discretization \cup OnlyClass
Accepts(entry) == CASE entry \in Direct -> Options
                    [] entry = "uhtr" -> Tolerances
                    [] OTHER -> Tolerances \cup Discretization
(* c.entry, c.form: what is asked and for what; c.bc, c.method ("none" when  *)
(* left out); c.given: the flow of the request; c.cp: whether it has a heat  *)
(* capacity; c.opts: options given; c.flaw: something invalid.               *)
(* n: the network, with stored flow and heat capacity; series: boreholes in  *)
(* series; uneven: its circuits (and flows given by circuit) are not alike;  *)
(* mixed: its pipes are not alike; tilted: boreholes are not vertical.        *)
BCOf(c) == CASE c.entry = "uhtr" -> "UHTR" [] c.entry = "ubwt" -> "UBWT" [] c.entry \in {"equal", "mixed"} -> "MIFT"
             [] OTHER -> IF c.bc # "none" THEN c.bc ELSE IF c.form = "net" THEN "MIFT" ELSE "UBWT"
Flow(c, n) == IF c.given # "none" THEN [how |-> IF c.entry = "equal" /\ c.given = "total" THEN "each" ELSE c.given, src |-> "given"]
              ELSE [how |-> n.flow, src |-> "stored"]
Capacity(c, n) == IF c.cp THEN "given" ELSE IF n.cp THEN "stored" ELSE "none"
\* the method of equivalent boreholes needs boreholes that are alike
Alike(c, n) == /\ ~(n.series /\ c.entry # "equal") /\ ~n.mixed
               /\ ~(n.uneven /\ Flow(c, n).how = "circuits")
MethodOf(c, n) ==
    LET m == IF c.method # "none" THEN c.method ELSE IF c.entry \in Direct THEN "equivalent" ELSE "similarities" IN
    IF m = "equivalent" /\ BCOf(c) = "MIFT" /\ ~Alike(c, n) THEN "similarities" ELSE m
Legal(c, n) ==
    /\ c.flaw = "" /\ c.bc # "bad" /\ c.method # "bad"
    /\ BCOf(c) = "MIFT" => /\ c.form = "net" \/ c.entry = "equal"
                           /\ Flow(c, n).how \notin {"none", "both"}
                           /\ Capacity(c, n) # "none"
    \* equivalent boreholes are vertical
    /\ n.tilted => MethodOf(c, n) # "equivalent"
OptionsOf(c) == [o \in Options |-> IF c.entry = "uhtr" /\ o = "nSegments" THEN "one" ELSE IF o \in c.opts THEN "given" ELSE "default"]
NoFlow == [how |-> "none", src |-> "none"]
Meaning(c, n) ==
    [bc |-> BCOf(c), method |-> MethodOf(c, n), opts |-> OptionsOf(c),
     flow |-> IF BCOf(c) = "MIFT" THEN Flow(c, n) ELSE NoFlow,
     cp |-> IF BCOf(c) = "MIFT" THEN Capacity(c, n) ELSE "none"]
=============================================================================
