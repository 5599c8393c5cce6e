------------------------------ MODULE MCStatic ------------------------------
(* A caller gives parameters one by one and creates g-functions; the library *)
(* assembles the model in steps, over a process in which several models are  *)
(* created one after the other.                                              *)
EXTENDS Static, TLC, Json
CONSTANTS NB, NModels, MaxMiss, Mut, Gen
VARIABLES c, stage, net, out, log
vars == <<c, stage, net, out, log>>
R(S) == IF Gen THEN {RandomElement(S)} ELSE S
Optional == {"temp", "J", "rev"}
\* chains of boreholes in parallel, upstream boreholes first
Conn == UNION {{s \in [1..n -> -1..n - 2] : \A i \in 1..n : s[i] < i - 1 /\ (s[i] # -1 => \A j \in 1..i - 1 : s[j] # s[i])} : n \in 1..NB}
BadNames == {"bad-bc", "bad-pipe"}
\* when generating: often nothing essential is missing
OneOf(S) == CHOOSE x \in R(S) : TRUE
RMiss(x0) == IF OneOf(1..10) <= 7 THEN R(SUBSET Optional) ELSE {{x, y} : x \in R(NetParams), y \in R(Optional \cup NetParams)}
RBC(x0) == IF OneOf(1..12) = 1 THEN {"bad-bc"} ELSE IF OneOf(1..10) <= 7 THEN {"MIFT"} ELSE R(BCs)
RPipe(x0) == IF OneOf(1..12) = 1 THEN {"bad-pipe"} ELSE R(Pipes)
Misses == {S \in SUBSET (NetParams \cup Optional) : Cardinality(S) <= MaxMiss}
None == [bc |-> "none"]
NoOut == [bc |-> "none", net |-> <<>>]
Rejected == [bc |-> "rejected", net |-> <<>>]
Init == c = None /\ stage = "idle" /\ net = <<>> /\ out = NoOut /\ log = <<>>
Choose == /\ stage = "idle" /\ Len(log) < NModels
          /\ \E bc \in IF Gen THEN RBC(log) ELSE BCs \cup {"bad-bc"}, pipe \in IF Gen THEN RPipe(log) ELSE Pipes \cup {"bad-pipe"},
                inl \in R(Conn), miss \in IF Gen THEN RMiss(log) ELSE Misses :
                /\ bc # "MIFT" /\ ~Gen => inl = <<-1>> /\ miss = {}
                /\ c' = [bc |-> bc, pipe |-> pipe, inl |-> inl, miss |-> miss]
                /\ log' = IF Gen THEN Append(log, [c |-> c', plan |-> IF Legal(c') THEN Model(c') ELSE [bc |-> "none", net |-> <<>>]]) ELSE <<1>>
          /\ stage' = "bc" /\ net' = <<>> /\ out' = NoOut
CheckBC == /\ stage = "bc"
           /\ IF c.bc \notin BCs /\ Mut # "any-bc" THEN stage' = "idle" /\ out' = Rejected /\ UNCHANGED net
              ELSE IF c.bc # "MIFT" THEN stage' = "solve" /\ UNCHANGED <<out, net>>
              ELSE stage' = "pipes" /\ UNCHANGED <<out, net>>
           /\ UNCHANGED <<c, log>>
\* the shared resistances come before the pipes; anything missing shows there,
\* or when pipes are made
Fl == IF Mut = "default-temperature" THEN [FluidOf(c) EXCEPT !.temp = "default"] ELSE FluidOf(c)
N == IF Mut = "all-inlets" THEN Len(c.inl) ELSE Inlets(c.inl)
F(where, wall, parts) == [where |-> where, wall |-> wall, parts |-> parts, m |-> IF Mut = "sign" THEN "given" ELSE "abs", fluid |-> Fl]
A == IF Mut = "annulus-first" THEN 1 ELSE Annulus(c.pipe)
Made(b) == [hole |-> IF Mut = "one-hole" THEN 1 ELSE b, dir |-> c.pipe,
            J |-> IF Mut = "drop-J" \/ "J" \in c.miss THEN "default" ELSE "given",
            rev |-> IF Mut = "drop-rev" \/ "rev" \in c.miss THEN "default" ELSE "given",
            fp |-> IF c.pipe \in Coaxial THEN << Wall(A), F("annulus", IF Mut = "wall" THEN "inner" ELSE "outer", N) >>
                   ELSE << Wall(0), F("circle", "inner", IF c.pipe = "DOUBLE_UTUBE_PARALLEL" /\ Mut # "split" THEN 2 * N ELSE N) >>,
            ff |-> IF c.pipe \in Coaxial
                   THEN << F("circle", "inner", N), [Wall(3 - A) EXCEPT !.k_p = IF Mut = "inner-k" THEN A ELSE @], F("annulus", "inner", N) >> ELSE <<>>]
Refuse == \/ c.miss \cap NetParams # {} /\ ~(Mut = "late-eps" /\ c.miss \cap NetParams = {"eps"})
          \/ c.pipe \notin Pipes
MakePipe == /\ stage = "pipes"
            /\ IF Refuse THEN stage' = "idle" /\ out' = Rejected /\ UNCHANGED net
               ELSE /\ net' = Append(net, Made(Len(net) + 1))
                    /\ stage' = IF Len(net') = Len(c.inl) THEN "solve" ELSE "pipes"
                    /\ UNCHANGED out
            /\ UNCHANGED <<c, log>>
Solve == /\ stage = "solve" /\ stage' = "idle"
         /\ out' = [bc |-> c.bc,
                    net |-> IF net = <<>> THEN <<>>
                            ELSE [pipes |-> net, inl |-> IF Mut = "drop-inlets" THEN [b \in DOMAIN c.inl |-> -1] ELSE c.inl,
                                  cp |-> Fl, m |-> "given"]]
         /\ UNCHANGED <<c, net, log>>
Next == Choose \/ CheckBC \/ MakePipe \/ Solve
Spec == Init /\ [][Next]_vars
Done == stage = "idle" /\ c # None
Rejects == Done => ((out = Rejected) <=> ~Legal(c))
Assembled == Done /\ Legal(c) => out = Model(c)
Emit == Gen /\ Len(log) = NModels /\ stage = "idle" => PrintT("BEH " \o ToJson(log))
=============================================================================
