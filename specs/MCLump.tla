------------------------------- MODULE MCLump --------------------------------
(* The search by the index of the first distance beyond the tolerance; zero  *)
(* stands for none.                                                          *)
EXTENDS Lump, TLC
CONSTANTS N, W, PMax, Mut
VARIABLES d, p, i, out
vars == <<d, p, i, out>>
Q == 10
Sorted(s) == \A k \in 1..Len(s) - 1 : s[k] <= s[k + 1]
Init == d \in {s \in UNION {[1..n -> 1..W] : n \in 1..N} : Sorted(s)} /\ p \in 1..PMax /\ i = 1 /\ out = <<>>
Beyond == {k \in 1..Len(d) : IF Mut = "strict" THEN Q * d[k] > (Q + p) * d[i] ELSE ~Within(d[IF Mut = "chain" THEN Max2(k - 1, 1) ELSE i], d[k], p, Q)}
First == IF Beyond = {} THEN 0 ELSE IF Mut = "chain" THEN (IF \E k \in Beyond : k > i THEN MinOf({k \in Beyond : k > i}) ELSE 0) ELSE MinOf(Beyond)
Step == /\ i # 0
        /\ LET j == First  e == IF j > i THEN j - 1 ELSE IF Mut = "rest" THEN i ELSE Len(d) IN
           /\ out' = Append(out, [n |-> e - i + 1, sum |-> SumSeq(SubSeq(d, i, e))])
           /\ i' = IF j > i THEN j ELSE 0
        /\ UNCHANGED <<d, p>>
Next == Step
Spec == Init /\ [][Next]_vars
Right == i = 0 => out = Lumps(d, p, Q)
\* every distance is in one lump, whose spread is below the tolerance
Laws == LET o == Lumps(d, p, Q) IN
        /\ SumSeq([k \in DOMAIN o |-> o[k].n]) = Len(d) /\ SumSeq([k \in DOMAIN o |-> o[k].sum]) = SumSeq(d)
        /\ \A a \in 1..Len(o) - 1 : o[a].sum * o[a + 1].n < o[a + 1].sum * o[a].n
==============================================================================
