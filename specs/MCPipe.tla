------------------------------- MODULE MCPipe -------------------------------
(* Fluid moves through the pipes of a borehole cell by cell; in each cell it *)
(* exchanges heat with the wall and with the fluid of another pipe in the    *)
(* same cell.  A parcel of each U-tube carries Split(..) parts of heat.      *)
EXTENDS Pipe, TLC, Json
CONSTANTS NMax, Cells, Mut, Gen
VARIABLES kind, n, rev,     \* configuration
          wall, link,       \* heat from the wall, and from pipe 1 to pipe 2n, in each cell
          heat,             \* heat taken so far by the fluid of every pipe at its end
          done,             \* pipes whose fluid has gone through
          seen              \* visits of every pipe and cell
vars == <<kind, n, rev, wall, link, heat, done, seen>>

D(i) == IF Mut = "no-reverse" /\ kind = "ser" THEN i ELSE Down(kind, n, rev, i)
U(i) == IF Mut = "no-reverse" /\ kind = "ser" THEN n + i ELSE Up(kind, n, rev, i)
F(i) == IF Mut = "order" /\ kind = "ser" THEN i - 1 ELSE Feeds(kind, n, rev, i)
L(k) == IF Mut = "outlet" /\ kind = "ser" THEN {n} ELSE Last(kind, n, rev, k)

Pipes == 1..2 * n
Init == /\ kind \in {"par", "ser", "ind"} /\ n \in 1..NMax
        /\ rev \in [1..Circuits(kind, n) -> BOOLEAN]
        /\ wall \in [1..2 * n -> [1..Cells -> IF n = 1 THEN {-1, 0, 2} ELSE {0, 1}]]
        /\ \A p \in 1..2 * n : p > 2 => wall[p] = wall[2]
        /\ link \in [1..Cells -> {0, 1}]
        /\ heat = [p \in 1..2 * n |-> 0] /\ done = {}
        /\ seen = [p \in 1..2 * n |-> [c \in 1..Cells |-> 0]]
\* heat gained by the fluid of pipe p in cell c
Gain(p, c) == wall[p][c] + (IF p = 2 * n THEN link[c] ELSE IF p = 1 THEN 0 - link[c] ELSE 0)
RECURSIVE Gains(_, _)
Gains(p, c) == IF c = 0 THEN 0 ELSE Gain(p, c) + Gains(p, c - 1)
\* one pass through a pipe, after what feeds it
Pass(p, from) == /\ p \notin done /\ (from = 0 \/ from \in done)
                 /\ heat' = [heat EXCEPT ![p] = (IF from = 0 THEN 0 ELSE heat[from]) + Gains(p, Cells)]
                 /\ seen' = [seen EXCEPT ![p] = [c \in 1..Cells |-> @[c] + 1]]
                 /\ done' = done \cup {p}
                 /\ UNCHANGED <<kind, n, rev, wall, link>>
Next == \E i \in 1..n : \/ Pass(D(i), IF F(i) = 0 THEN 0 ELSE U(F(i)))
                        \/ Pass(U(i), D(i))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
RECURSIVE WallOf(_, _)
WallOf(p, c) == IF c = 0 THEN 0 ELSE wall[p][c] + WallOf(p, c - 1)
Wall == SumOver(Pipes, [p \in Pipes |-> WallOf(p, Cells)])
Out == SumOver(1..Circuits(kind, n), [k \in 1..Circuits(kind, n) |->
           SumOver({U(i) : i \in L(k)}, heat)])
\* heat leaves the borehole with the fluid exactly as it came from the wall
Conserved == done = Pipes => Out = Wall
\* the fluid enters at an inlet of the direction of flow of its circuit
Direction == \A i \in 1..n : F(i) = 0 =>
                 (D(i) > n <=> rev[CircOf(kind, i)]) /\ (kind = "ser" => (i = n <=> (rev[1] \/ n = 1)))
Ended == <>(done = Pipes)
Emit == Gen /\ done = {} /\ wall = [p \in Pipes |-> [c \in 1..Cells |-> 0]] /\ link = [c \in 1..Cells |-> 0]
            => PrintT("BEH " \o ToJson([kind |-> kind, n |-> n, rev |-> rev]))
=============================================================================
