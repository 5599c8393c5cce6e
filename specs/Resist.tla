------------------------------- MODULE Resist -------------------------------
(* Thermal resistances are remembered from the last calculation, for all     *)
(* pipe objects together.  Matrices live in a heap: a matrix is a reference  *)
(* and its contents can be changed by whoever holds the reference.           *)
(* A geometry g has the key KeyOf(g): different geometries may agree in the  *)
(* parameters that a (wrong) comparison looks at.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs, Geos, Vals, Mut, Gen
VARIABLES heap,            \* contents of matrices: <<geometry, value>> or "spoilt"
          memo,            \* [g, r, ref], what was calculated last
          obj,             \* geometry, resistance and matrix of each pipe
          held,            \* references the caller holds
          log
vars == <<heap, memo, obj, held, log>>

None == 0
Init == /\ heap = <<>> /\ memo = [g |-> None, r |-> None, ref |-> None]
        /\ obj = [o \in Objs |-> [g |-> None, r |-> None, ref |-> None]]
        /\ held = {} /\ log = <<>>
KeyOf(g) == IF Mut = "key" THEN (g + 1) \div 2 ELSE g
Hit(g, r) == /\ memo.ref # None /\ KeyOf(memo.g) = KeyOf(g)
             /\ memo.r = r \/ Mut = "key-value"
\* new heap, and reference returned to the one who asks for (g, r)
Calc(g, r) ==
    IF Hit(g, r)
    THEN IF Mut = "alias-out" THEN [h |-> heap, m |-> memo, x |-> memo.ref]
         ELSE [h |-> Append(heap, heap[memo.ref]), m |-> memo, x |-> Len(heap) + 1]
    ELSE LET h == heap \o << <<g, r>>, <<g, r>> >> IN
         [h |-> h, m |-> [g |-> g, r |-> r, ref |-> Len(heap) + 1],
          x |-> IF Mut \in {"alias-in", "alias-out"} THEN Len(heap) + 1 ELSE Len(heap) + 2]
Log(x) == log' = IF Gen > 0 THEN Append(log, x) ELSE log
New(o, g, r) == LET c == Calc(g, r) IN
    /\ heap' = c.h /\ memo' = c.m
    /\ obj' = [obj EXCEPT ![o] = [g |-> g, r |-> r, ref |-> c.x]]
    /\ UNCHANGED held /\ Log(<<"New", o, g, r>>)
Update(o, r) == LET c == Calc(obj[o].g, r) IN
    /\ obj[o].g # None
    /\ heap' = c.h /\ memo' = c.m
    /\ obj' = [obj EXCEPT ![o].r = r, ![o].ref = IF Mut = "stale" THEN @ ELSE c.x]
    /\ UNCHANGED held /\ Log(<<"Update", o, r>>)
\* a direct call: the caller holds the matrix and may change it
Call(g, r) == LET c == Calc(g, r) IN
    /\ heap' = c.h /\ memo' = c.m /\ held' = {c.x} /\ UNCHANGED obj /\ Log(<<"Call", g, r>>)
Spoil == /\ held # {} /\ heap' = [x \in DOMAIN heap |-> IF x \in held THEN <<None, None>> ELSE heap[x]]
         /\ held' = {} /\ UNCHANGED <<memo, obj>> /\ Log(<<"Spoil">>)
Query(o) == /\ Gen > 0 /\ obj[o].g # None /\ UNCHANGED <<heap, memo, obj, held>> /\ Log(<<"Query", o>>)
Next == \/ \E o \in Objs, g \in Geos, r \in Vals : New(o, g, r)
        \/ \E o \in Objs, r \in Vals : Update(o, r)
        \/ \E g \in Geos, r \in Vals : Call(g, r)
        \/ Spoil
        \/ \E o \in Objs : Query(o)
GenNext == IF Len(log) % 3 = 2 /\ Objs # {}
           THEN \/ \E o \in Objs : Query(o)
                \/ Spoil
           ELSE \/ \E o \in Objs, g \in Geos, r \in Vals : New(o, g, r)
                \/ \E o \in Objs, r \in Vals : Update(o, r)
                \/ \E g \in Geos, r \in Vals : Call(g, r)
                \/ Spoil
Spec == Init /\ [][IF Gen > 0 THEN GenNext ELSE Next]_vars

\* the resistances in force are those of the object's own parameters
Own == \A o \in Objs : obj[o].g # None => heap[obj[o].ref] = <<obj[o].g, obj[o].r>>
Bound == Len(heap) <= 8
Emit == Gen > 0 /\ Len(log) >= Gen => PrintT("BEH " \o ToJson(log))
=============================================================================
