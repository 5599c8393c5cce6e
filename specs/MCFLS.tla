-------------------------------- MODULE MCFLS -------------------------------
(* Fields of lines that are cut, reordered and moved.                        *)
EXTENDS FLS, TLC, Json
CONSTANTS NL, H, D, C, NOps, Mut, Gen
VARIABLES f, p, f0, k, log, want
vars == <<f, p, f0, k, log, want>>
R(S) == IF Gen THEN {RandomElement(S)} ELSE S
Lines == [c : 0..C, z : 0..D, h : 1..H]
Overlap(a, b) == a.c = b.c /\ Cells(a) \cap Cells(b) # {}
Apart(g) == \A i, j \in 1..Len(g) : i < j => ~Overlap(g[i], g[j])
Kernels == [c : 0..C, z : 0..(2 * (D + H))]
Init == /\ IF Gen THEN f = <<>> ELSE f \in {g \in UNION {[1..n -> Lines] : n \in 1..NL} : Apart(g)}
        /\ p = [i \in 1..Len(f) |-> i] /\ f0 = f
        /\ k \in (IF Gen THEN {[c |-> 0, z |-> 0]} ELSE Kernels)
        /\ log = <<>> /\ want = IF Gen THEN "add" ELSE ""
\* to generate: lines are added one by one
Add == /\ want = "add" /\ Len(f) < NL
       /\ \E l \in R(Lines) : IF Apart(Append(f, l)) THEN /\ f' = Append(f, l) /\ p' = Append(p, Len(f) + 1) /\ f0' = f'
                              ELSE UNCHANGED <<f, p, f0>>
       /\ want' = IF Len(f') > 0 /\ RandomElement(1..3) = 1 THEN "" ELSE "add"
       /\ UNCHANGED <<k, log>>
AddEnd == want = "add" /\ Len(f) = NL /\ want' = "" /\ UNCHANGED <<f, p, f0, k, log>>
Op(o) == /\ log' = Append(log, o) /\ UNCHANGED <<f0, k, want>>
Cut(i, c) == /\ f[i].h > c
             /\ f' = Append([f EXCEPT ![i].h = c], [f[i] EXCEPT !.z = f[i].z + c, !.h = f[i].h - c])
             /\ p' = IF Mut = "parent" THEN Append(p, i) ELSE CutParents(p, i)
             /\ Op([op |-> "cut", i |-> i, c |-> c])
Swap(i, j) == /\ i < j
              /\ f' = SwapAt(f, i, j) /\ p' = IF Mut = "order" THEN p ELSE SwapAt(p, i, j)
              /\ Op([op |-> "swap", i |-> i, j |-> j])
Move(o) == /\ f' = [i \in 1..Len(f) |-> [f[i] EXCEPT !.c = IF o = "mirror" THEN 5 - @ ELSE @ + 3, !.z = IF Mut = "sink" THEN @ + 1 ELSE @]]
           /\ p' = p /\ Op([op |-> o])
Scale == /\ Gen /\ UNCHANGED <<f, p>> /\ Op([op |-> "scale"])
Moves == {"move", "mirror", "turn"}
Ready == want = "" /\ Len(log) < NOps
Pick == Gen /\ Ready /\ want' = RandomElement({"cut", "cut1", "swap", "mv", "scale"}) /\ UNCHANGED <<f, p, f0, k, log>>
W(x) == (~Gen /\ Ready) \/ (Gen /\ want \in x)
Next == \/ Add \/ AddEnd \/ Pick
        \/ W({"cut", "cut1"}) /\ \E i \in R(1..Len(f)), c \in R(1..(H - 1)) : Cut(i, c)
        \/ W({"swap"}) /\ \E i \in R(1..Len(f)), j \in R(1..Len(f)) : Swap(i, j)
        \/ W({"mv"}) /\ \E o \in R(Moves) : Move(o)
        \/ W({"scale"}) /\ Scale
        \/ Gen /\ want \in {"cut", "cut1", "swap", "mv", "scale"} /\ want' = "" /\ UNCHANGED <<f, p, f0, k, log>>
        \/ Gen /\ want = "" /\ Len(log) >= NOps /\ want' = "done" /\ UNCHANGED <<f, p, f0, k, log>>
Spec == Init /\ [][Next]_vars

Closed(a, b) ==
    LET d == Col(a, b)
        im == IF Mut = "depth" THEN b.z + a.h ELSE b.z + a.z IN
    CASE Mut = "sign" -> TwiceReal(k, a, b) - TwiceImage(k, a, b)
      [] Mut = "depth" -> TwiceReal(k, a, b) + E(k, d, im + b.h) - E(k, d, im) + E(k, d, im + a.h) - E(k, d, im + b.h + a.h)
      [] Mut = "term" -> TwiceImage(k, a, b) + E(k, d, b.z - a.z + b.h) - E(k, d, b.z - a.z) + E(k, d, b.z - a.z - a.h)
      [] Mut = "length" -> TwiceImage(k, a, b) + E(k, d, b.z - a.z + b.h) - E(k, d, b.z - a.z) + E(k, d, b.z - a.z - a.h) - E(k, d, b.z - a.z)
      [] OTHER -> TwiceReal(k, a, b) + TwiceImage(k, a, b)
Mat(g) == [i \in 1..Len(g) |-> [j \in 1..Len(g) |-> Closed(g[i], g[j])]]
InvClosed == \A i, j \in 1..Len(f) : Closed(f[i], f[j]) = 2 * (Real(k, f[i], f[j]) + Image(k, f[i], f[j]))
InvReciprocal == \A i, j \in 1..Len(f) : Closed(f[i], f[j]) = Closed(f[j], f[i])
InvBlocks == BlockSums(Mat(f), p, Len(f0)) = Mat(f0)
Stop == want # "done"
Emit == want = "done" => PrintT("BEH " \o ToJson([f |-> f0, ops |-> log]))
=============================================================================
