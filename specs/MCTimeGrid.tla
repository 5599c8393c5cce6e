----------------------------- MODULE MCTimeGrid -----------------------------
(* A generator appends cells until the maximum time is reached.              *)
EXTENDS TimeGrid, TLC
CONSTANTS TMax, P
VARIABLES kind, p, tmax, ws, t, level, left
vars == <<kind, p, tmax, ws, t, level, left>>
\* tmax in half steps
Init == /\ kind \in {"CJ", "MP"} /\ p \in 1..P /\ tmax \in {500 * k : k \in 1..TMax}
        /\ ws = <<>> /\ t = 0
        /\ level = 0 /\ left = p
\* the state machine of levels: p cells, then a new level of cells twice as wide
\* (for Marcotte and Pasquier all later levels have one cell)
Step == /\ 1000 * t < tmax
        /\ LET new == left = 0
               lv == IF new THEN level + 1 ELSE level
               w == Pow2(IF GMut = "square" THEN 2 * lv ELSE lv) IN
           /\ ws' = Append(ws, w)
           /\ t' = t + w
           /\ level' = lv
           /\ left' = IF new THEN (IF kind = "CJ" THEN p ELSE 1) - 1 ELSE left - 1
        /\ UNCHANGED <<kind, p, tmax>>
Next == Step
Spec == Init /\ [][Next]_vars
Done == 1000 * t >= tmax
\* the levels are those of the closed form of the code
InvGrid == Done => ws = Grid(kind, p, tmax)
InvComplete == Done => /\ 1000 * SumSeq(ws) >= tmax
                       /\ 1000 * (SumSeq(ws) - ws[Len(ws)]) < tmax
                       /\ IsIncreasing(<<0>> \o Ends(ws))
\* grids of earlier maximum times are the beginning of this one
InvPrefix == \A i \in 1..Len(ws) : ws[i] = Width(kind, p, i)
InvDouble == Done /\ kind = "CJ" => \A i \in 1..Len(ws) - p : ws[i + p] = 2 * ws[i]
=============================================================================
