----------------------------- MODULE MCFigures ------------------------------
(* A solution that is evaluated again and again, and figures drawn of it:    *)
(* values of the chosen boreholes are gathered in the order they are chosen, *)
(* then figures drawn, one for each condition, borehole by borehole; every   *)
(* curve takes the next colour.                                              *)
EXTENDS Figures, TLC, Json
CONSTANTS NB, NF, NT, NOps, Mut, Gen
VARIABLES sol, req, stage, data, figs, todo, b, held, log
vars == <<sol, req, stage, data, figs, todo, b, held, log>>
R(S) == IF Gen THEN {RandomElement(S)} ELSE S
\* sequences of distinct elements of 1..n
RECURSIVE Picks(_, _)
Picks(n, k) == IF k = 0 THEN {<<>>} ELSE {<<>>} \cup UNION {{Append(s, x) : x \in (1..n) \ Range(s)} : s \in Picks(n, k - 1)}
NoReq == [kind |-> "none"]
NoSol == [v |-> 0, nb |-> 0, nf |-> 0, nt |-> 0]
Init == /\ sol = NoSol /\ req = NoReq /\ stage = "idle" /\ data = <<>> /\ figs = <<>> /\ todo = <<>> /\ b = 0
        /\ held = NoSol /\ log = <<>>
Evaluate ==
    /\ stage = "idle" /\ Len(log) < NOps
    /\ \E nb \in IF sol.v = 0 THEN R(1..NB) ELSE {sol.nb}, nf \in IF sol.v = 0 THEN R(0..NF) ELSE {sol.nf}, nt \in R(1..NT) :
         /\ sol' = [v |-> sol.v + 1, nb |-> nb, nf |-> nf, nt |-> nt]
         /\ held' = IF Mut = "stale" /\ held.v > 0 /\ sol.nt = nt THEN held ELSE sol'
         /\ log' = Append(log, IF Gen THEN [op |-> "solve", s |-> sol'] ELSE [op |-> ""])
    /\ req' = NoReq /\ UNCHANGED <<stage, data, figs, todo, b>>
Requests == {[kind |-> k, chosen |-> c, all |-> a, at |-> t, tilt |-> i, which |-> w, every |-> e] :
               k \in R(Kinds), c \in R(Picks(sol.nb, sol.nb)), a \in R(BOOLEAN), t \in R(0..sol.nt), i \in R(BOOLEAN),
               w \in R(Picks(sol.nf, sol.nf)), e \in R(BOOLEAN)}
\* what is not used is left out
Normal(r) == [r EXCEPT !.chosen = IF r.all THEN <<>> ELSE @, !.which = IF r.every THEN <<>> ELSE @,
                       !.every = r.every \/ r.which = <<>>, !.at = IF r.kind \in {"rates", "temperatures"} THEN 0 ELSE @]
Plain(r) == Normal(r) = r
Ask == /\ stage = "idle" /\ sol.v > 0 /\ Len(log) < NOps
       /\ \E r \in Requests :
            /\ Gen \/ Plain(r)
            /\ req' = Normal(r)
            /\ log' = Append(log, IF Gen THEN [op |-> "draw", r |-> Normal(r), s |-> sol] ELSE [op |-> ""])
       /\ stage' = "gather" /\ figs' = <<>> /\ UNCHANGED <<sol, data, todo, b, held>>
Gather ==
    /\ stage = "gather"
    /\ LET c == Chosen(req, sol)  s == held
           r == IF Mut = "last" THEN [req EXCEPT !.at = 0] ELSE req IN
       data' = [i \in DOMAIN c |-> [n \in 0..sol.nf |-> Values(r, s, c[i], n)]]
    /\ todo' = Conditions(req, sol) /\ stage' = "open" /\ UNCHANGED <<sol, req, figs, b, held, log>>
Open ==
    /\ stage = "open" /\ todo # <<>>
    /\ figs' = Append(figs, [title |-> IF Mut = "title" /\ sol.nf > 0 THEN Len(figs) + 1 ELSE todo[1], marks |-> <<>>])
    /\ b' = 1 /\ stage' = "draw" /\ UNCHANGED <<sol, req, data, todo, held, log>>
Position(c, x) == CHOOSE i \in DOMAIN c : c[i] = x
Draw ==
    /\ stage = "draw"
    /\ LET c == Chosen(req, sol)
           n == IF Mut = "flow" /\ sol.nf > 0 THEN Len(figs) ELSE todo[1]
           in == IF Mut = "head" THEN b <= Len(c) ELSE b \in Range(c)
           k == IF Mut = "order" THEN Cardinality({x \in Range(c) : x <= b}) ELSE Position(c, b)
           m == [curve |-> IF in /\ (Mut = "head" => b \in Range(c)) THEN {data[k][n]} ELSE {}, tilt |-> req.tilt \/ (Mut = "tilt" /\ ~in)]
       IN figs' = [figs EXCEPT ![Len(figs)].marks = Append(@, m)]
    /\ IF b < sol.nb THEN b' = b + 1 /\ UNCHANGED <<stage, todo>>
       ELSE b' = 0 /\ todo' = Tail(todo) /\ stage' = IF Tail(todo) = <<>> THEN "idle" ELSE "open"
    /\ UNCHANGED <<sol, req, data, held, log>>
Next == Evaluate \/ Ask \/ Gather \/ Open \/ Draw
Spec == Init /\ [][Next]_vars
Bound == sol.v <= 2
Right == stage = "idle" /\ req # NoReq => figs = Shown(req, sol)
Emit == Gen /\ Len(log) = NOps /\ stage = "idle" => PrintT("BEH " \o ToJson(log))
=============================================================================
