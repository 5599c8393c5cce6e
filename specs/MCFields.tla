------------------------------ MODULE MCFields -------------------------------
(* Fields are built borehole by borehole, then exchanged and moved.          *)
EXTENDS Fields, TLC, Json
CONSTANTS NB, NX, NY, NDim, Dirs, NOps, MinOps, Mut, Gen
VARIABLES f, c, q, f0, c0, log, want
vars == <<f, c, q, f0, c0, log, want>>
DirsAll == {-1, 0, 1}
DirsVert == {-1}
DirsMany == {-1, 0, 1, 2, 3}
R(S) == IF Gen /\ S # {} THEN {RandomElement(S)} ELSE S
W == [i \in 1..NB |-> 10 + i]
Init == f = <<>> /\ c = <<>> /\ q = <<>> /\ f0 = <<>> /\ c0 = <<>> /\ log = <<>> /\ want = "add"
Free == {p \in (0..NX) \X (0..NY) : \A i \in 1..Len(f) : f[i].x # p[1] \/ f[i].y # p[2]}
\* a new borehole is fed by the inlet, or by a borehole that feeds no other
Ends(v) == {-1} \union {i \in 0..Len(v) - 1 : \A k \in 1..Len(v) : v[k] # i}
Add == /\ want = "add" /\ Len(f) < NB
       /\ \E p \in R(Free), d \in R(1..NDim), a \in R(Dirs), e \in R(Ends(c)) :
          /\ f' = Append(f, [id |-> Len(f) + 1, x |-> p[1], y |-> p[2], d |-> d, a |-> a])
          /\ c' = Append(c, e)
       /\ q' = InletFlows(f', c', W) /\ f0' = f' /\ c0' = c'
       /\ want' \in (IF Len(f') = NB THEN {"op"} ELSE IF Gen THEN {IF RandomElement(1..5) = 1 THEN "op" ELSE "add"} ELSE {"add", "op"})
       /\ UNCHANGED log
Open == Len(log) < NOps
\* the kind of operation is picked first
Pick == want = "op" /\ Gen
        /\ want' = RandomElement(IF Len(log) < MinOps THEN {"swap", "swap2", "mv"} ELSE IF Open THEN {"swap", "swap2", "mv", "done"} ELSE {"done"})
        /\ UNCHANGED <<f, c, q, f0, c0, log>>
Can(k) == Open /\ (IF Gen THEN want \in k ELSE want = "op")
Did(o) == log' = Append(log, o) /\ want' = "op" /\ UNCHANGED <<f0, c0>>
Swap(i, j) == /\ f' = SwapAt(f, i, j)
              /\ c' = IF Mut = "feed" THEN SwapAt(c, i, j) ELSE IF Mut = "name" THEN [k \in 1..Len(c) |-> IF c[k] = -1 THEN -1 ELSE Sigma(i - 1, j - 1, c[k])] ELSE Renamed(c, i, j)
              /\ q' = IF Mut = "flow" THEN q ELSE InletFlows(f', c', W)
              /\ Did([op |-> "swap", i |-> i, j |-> j])
Move(o) == /\ f' = [k \in 1..Len(f) |-> CASE o = "move" -> Moved(f[k])
                      [] o = "turn" -> IF Mut = "turn" THEN [Turned(f[k]) EXCEPT !.a = f[k].a] ELSE Turned(f[k])
                      [] OTHER -> IF Mut = "mirror" THEN [Mirrored(f[k]) EXCEPT !.a = IF f[k].a = -1 THEN -1 ELSE (f[k].a + 2) % 4] ELSE Mirrored(f[k])]
           /\ Did([op |-> o]) /\ UNCHANGED <<c, q>>
Next == \/ Add \/ Pick
        \/ Can({"swap", "swap2"}) /\ \E i \in R(1..Len(f)) : \E j \in R((1..Len(f)) \ {i}) : Swap(i, j)
        \/ Can({"mv"}) /\ \E o \in R({"move", "turn", "mirror"}) : Move(o)
        \/ Gen /\ Len(f) = 1 /\ want \in {"swap", "swap2"} /\ want' = "op" /\ log' = Append(log, [op |-> "move"]) /\ f' = [k \in 1..Len(f) |-> Moved(f[k])] /\ UNCHANGED <<c, q, f0, c0>>
Spec == Init /\ [][Next]_vars
InvAccept == Accept(c)
InvFeeds == Feeds(f, c) = Feeds(f0, c0)
InvFlow == FlowOf(f, c, q) = FlowOf(f0, c0, InletFlows(f0, c0, W))
InvViews == Views(f) = Views(f0)
Emit == want = "done" => PrintT("BEH " \o ToJson([f |-> f0, c |-> c0, ops |-> log]))
=============================================================================
