------------------------------ MODULE MCLoadAgg ------------------------------
(* Exhaustive exploration of the design, and generation of behaviours.       *)
EXTENDS LoadAgg, TLC, Json
CONSTANTS Configs,     \* set of <<kind, par>>
          MaxSteps, LoadSet, Gen
VARIABLES s, set, last, log

Pow == 262144
Init == /\ \E c \in Configs :
              s = IF c[1] = "CJ" THEN NewCJ(c[2]) ELSE IF c[1] = "MLAA" THEN NewMLAA(c[2]) ELSE NewLiu(c[2])
        /\ set = FALSE /\ last = 0
        /\ log = <<<<"New", s.kind, s.par>>>>
Log(x) == log' = IF Gen > 0 THEN Append(log, x) ELSE log
DoAdvance == /\ Len(s.hist) < MaxSteps
             /\ s' = Advance(s) /\ set' = FALSE /\ last' = 0 /\ Log(<<"Adv">>)
DoSet == /\ s.hist # <<>>
         /\ \E x \in LoadSet : /\ s' = SetLoad(s, x * (IF s.kind = "CJ" THEN Pow ELSE 1))
                               /\ last' = x * (IF s.kind = "CJ" THEN Pow ELSE 1)
                               /\ Log(<<"Set", x>>)
         /\ set' = TRUE
DoQuery == Gen > 0 /\ s.hist # <<>> /\ UNCHANGED <<s, set, last>> /\ Log(<<"Query">>)
DoReinit == Gen > 0 /\ s.hist # <<>> /\ UNCHANGED <<s, set, last>> /\ Log(<<"Init">>)
Next == DoAdvance \/ DoSet \/ DoQuery \/ (DoReinit /\ Len(log) % 7 = 0)
Spec == Init /\ [][Next]_<<s, set, last, log>>

InvPartition == Partition(s)
InvBlockSizes == BlockSizes(s)
InvLiuBounds == LiuBounds(s)
InvEnergy == Energy(s)
InvCurrent == Current(s)
\* the load of the current step is the last one set in it, or zero
InvLastWins == s.hist # <<>> => s.hist[Len(s.hist)] = last
GenLoads == {-7, -1, 0, 2, 5}
CfgCJ == {<<"CJ", w>> : w \in {<<1, 1, 2, 2, 4>>, <<1, 2, 4>>, <<1, 1, 1, 2>>, <<1>>}}
CfgBlocks == {<<"MLAA", <<a, b, c, d>>>> : a, b, c, d \in 1..3}
             \cup {<<"Liu", <<a, b, c, d, e, f>>>> : a, b, c \in 1..3, d, e, f \in 1..2}
CfgAll == CfgCJ \cup {<<"MLAA", p>> : p \in {<<2, 3, 2, 4>>, <<1, 2, 5, 3>>, <<3, 1, 4, 2>>}}
          \cup {<<"Liu", p>> : p \in {<<2, 2, 2, 1, 2, 1>>, <<1, 3, 2, 2, 1, 2>>, <<3, 2, 2, 1, 1, 1>>}}
Bound == Len(s.hist) <= MaxSteps
Emit == Gen > 0 /\ Len(log) >= Gen => PrintT("BEH " \o ToJson(log))
=============================================================================
