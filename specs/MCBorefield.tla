---------------------------- MODULE MCBorefield -----------------------------
(* Slots of a program hold references to fields.  Every operation makes a    *)
(* new field.  The ghost variable val is the value each slot should have.    *)
EXTENDS Borefield, TLC, Json
CONSTANTS NS, NB, MaxLen, Mut, Gen
VARIABLES heap, slot, val, log, want
vars == <<heap, slot, val, log, want>>
Ids == 1..NB
Short == UNION {[1..n -> Ids] : n \in 1..2}
Long == IF Gen > 0 THEN [1..3 -> {1, 3, 5}] ELSE {}
Small == IF Gen > 0 THEN {0 - 3, 0 - 2, 0 - 1, 0, 1, 2, 3, None} ELSE {0 - 1, 0, 1, None}
Steps == IF Gen > 0 THEN {1, 2, 0 - 1, 0 - 2} ELSE {1, 0 - 1}
Of(k) == heap[slot[k]]
Init == /\ heap = <<<<1>>>>
        /\ slot = [k \in 1..NS |-> 1]
        /\ val = [k \in 1..NS |-> <<1>>]
        /\ log = <<>> /\ want = ""
\* the field of slot d is the result r of operation o
Make(d, o, r) ==
    /\ Len(Value(val, o)) \in 1..MaxLen
    /\ heap' = Append(heap, r)
    /\ slot' = [slot EXCEPT ![d] = Len(heap) + 1]
    /\ val' = [val EXCEPT ![d] = Value(val, o)]
    /\ log' = IF Gen > 0 THEN Append(log, [o EXCEPT !.d = d]) ELSE log
\* a wrong design extends the left operand
Extend(d, o, r) ==
    /\ Len(r) \in 1..MaxLen
    /\ heap' = [heap EXCEPT ![slot[o.s]] = r]
    /\ slot' = [slot EXCEPT ![d] = slot[o.s]]
    /\ val' = [val EXCEPT ![d] = Value(val, o)]
    /\ log' = log
OfVal == [k \in 1..NS |-> Of(k)]
Do(d, o) ==
  /\ want = (IF Gen > 0 THEN o.op ELSE "")
  /\ want' = ""
  /\    IF Mut = "extend" /\ o.op = "add" THEN Extend(d, o, Value(OfVal, o))
    ELSE Make(d, o,
        CASE Mut = "swap" /\ o.op = "raddl" -> Of(o.s) \o o.ids
          [] Mut = "wrap" /\ o.op = "slice" /\ o.st > 0 -> Walk(Of(o.s), Clip(IF o.a = None THEN 0 ELSE o.a, 0, Len(Of(o.s))), Stop(o.b, o.st, Len(Of(o.s))), o.st)
          [] Mut = "set" /\ o.op = "add" -> Of(o.s) \o SelectSeq(Of(o.t), LAMBDA x : \A k \in 1..Len(Of(o.s)) : Of(o.s)[k] # x)
          [] OTHER -> Value(OfVal, o))
\* all choices, or one at random to generate programs
R(S) == IF Gen > 0 THEN {RandomElement(S)} ELSE S
W(x) == Gen = 0 \/ want = x
Ops == \/ W("add") /\ \E d \in R(1..NS), s \in R(1..NS), t \in R(1..NS) : Do(d, [op |-> "add", d |-> 0, s |-> s, t |-> t])
       \/ W("addb") /\ \E d \in R(1..NS), s \in R(1..NS), i \in R(Ids) : Do(d, [op |-> "addb", d |-> 0, s |-> s, id |-> i])
       \/ W("raddb") /\ \E d \in R(1..NS), s \in R(1..NS), i \in R(Ids) : Do(d, [op |-> "raddb", d |-> 0, s |-> s, id |-> i])
       \/ W("addl") /\ \E d \in R(1..NS), s \in R(1..NS), l \in R(Short) : Do(d, [op |-> "addl", d |-> 0, s |-> s, ids |-> l])
       \/ W("raddl") /\ \E d \in R(1..NS), s \in R(1..NS), l \in R(Short) : Do(d, [op |-> "raddl", d |-> 0, s |-> s, ids |-> l])
       \/ W("slice") /\ \E d \in R(1..NS), s \in R(1..NS), a \in R(Small), b \in R(Small), st \in R(Steps) :
              Do(d, [op |-> "slice", d |-> 0, s |-> s, a |-> a, b |-> b, st |-> st])
       \/ W("new") /\ \E d \in R(1..NS), l \in R(Short \union Long) : Do(d, [op |-> "new", d |-> 0, ids |-> l])
       \/ /\ Gen > 0
          /\ \/ want = "rt" /\ \E d \in R(1..NS), s \in R(1..NS) : Do(d, [op |-> "rt", d |-> 0, s |-> s])
             \/ want = "file" /\ \E d \in R(1..NS), s \in R(1..NS) : Do(d, [op |-> "file", d |-> 0, s |-> s])
             \/ want = "mask" /\ \E d \in R(1..NS), s \in R(1..NS) : \E m \in R([1..Len(val[s]) -> 0..1]) :
                    Do(d, [op |-> "mask", d |-> 0, s |-> s, ix |-> m])
             \/ want = "take" /\ \E d \in R(1..NS), s \in R(1..NS), n \in R(1..3) : \E x \in R([1..n -> (0 - Len(val[s]))..(Len(val[s]) - 1)]) :
                    Do(d, [op |-> "take", d |-> 0, s |-> s, ix |-> x])
             \/ want = "bb" /\ \E d \in R(1..NS), i \in R(Ids), j \in R(Ids) : Do(d, [op |-> "bb", d |-> 0, id |-> i, id2 |-> j])
             \/ want = "bl" /\ \E d \in R(1..NS), i \in R(Ids), l \in R(Short) : Do(d, [op |-> "bl", d |-> 0, id |-> i, ids |-> l])
             \/ want = "lb" /\ \E d \in R(1..NS), i \in R(Ids), l \in R(Short) : Do(d, [op |-> "lb", d |-> 0, id |-> i, ids |-> l])
\* to generate programs, the kind of operation is chosen first
Pick == Gen > 0 /\ want = "" /\ Len(log) < Gen /\ want' = RandomElement(Makes) /\ UNCHANGED <<heap, slot, val, log>>
\* the choice may make too long a field, or none
Skip == Gen > 0 /\ want \in Makes /\ want' = "" /\ UNCHANGED <<heap, slot, val, log>>
Done == Gen > 0 /\ Len(log) = Gen /\ want = "" /\ want' = "done" /\ UNCHANGED <<heap, slot, val, log>>
Next == Pick \/ Ops \/ Skip \/ Done
Spec == Init /\ [][Next]_vars
InvValues == \A k \in 1..NS : Of(k) = val[k]
\* laws of the values
InvLaws == \A a, b \in 1..NS :
    /\ Len(Of(a) \o Of(b)) = Len(Of(a)) + Len(Of(b))
    /\ Slice(Of(a) \o Of(b), None, Len(Of(a)), 1) = Of(a)
    /\ Slice(Of(a) \o Of(b), Len(Of(a)), None, 1) = Of(b)
    /\ Slice(Of(a), None, None, 0 - 1) = Rev(Of(a))
    /\ Take(Of(a), [k \in 1..Len(Of(a)) |-> k - 1 - Len(Of(a))]) = Of(a)
    /\ Mask(Of(a), Const(Len(Of(a)), 1)) = Of(a)
Bound == Len(heap) <= 3
Emit == Len(log) = Gen /\ want = "done" => PrintT("BEH " \o ToJson(log))
=============================================================================
