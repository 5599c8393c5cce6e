------------------------------- MODULE MCEval --------------------------------
(* Objects evaluated again and again over lists of times, and for lists of   *)
(* flow rates, with the way columns of results are laid out.                 *)
EXTENDS Eval, TLC, Json
CONSTANTS NT, Thr, MaxLen, NEval, NF, Mut, Gen
VARIABLES obj, log
vars == <<obj, log>>
RECURSIVE Lists(_, _)
Lists(lo, n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \union UNION {{<<t>> \o s : s \in Lists(t, n - 1)} : t \in lo..NT}
AllLists == Lists(0, MaxLen) \ {<<>>}
StrictLists == {s \in AllLists : IsIncreasing(s)}
None == [t |-> -1, hist |-> <<>>, resp |-> <<>>, num |-> -1]
NoObj == [ts |-> <<>>, d |-> <<>>, o |-> <<>>, first |-> <<>>]
\* lists of flow rates
FlowLists == UNION {[1..n -> 1..NF] : n \in 1..3}
\* columns of a solution; cached is the list of an earlier evaluation
Columns(ts, cached) ==
    LET k == IF Mut = "left" THEN Cardinality({i \in DOMAIN ts : ts[i] < Thr}) ELSE Low(ts, Thr)
        g == IF k = 0 THEN ts ELSE <<Thr>> \o SubSeq(ts, k + 1, Len(ts))
        p0 == IF Mut = "offset" THEN 0 ELSE Max2(0, k - 1)
        h == IF Mut = "cache" /\ Len(cached) = Len(g) THEN cached ELSE g
        RECURSIVE Fill(_, _)
        Fill(arr, p) ==
            IF p > Len(g) THEN arr
            ELSE LET q0 == IF Mut = "reads" THEN 0 ELSE p0
                     v == [t |-> g[p], hist |-> [c \in 1..p - 1 |-> arr[q0 + c].t], resp |-> SubSeq(h, 1, p), num |-> -1]
                 IN Fill(IF p + p0 <= Len(ts) THEN [arr EXCEPT ![p + p0] = v] ELSE arr, p + 1)
    IN [a |-> Fill([i \in DOMAIN ts |-> None], 1), k |-> k, p0 |-> p0, g |-> g]
Scaled(v, t) == IF v.num = -1 THEN [v EXCEPT !.num = t] ELSE [v EXCEPT !.num = t * 100]
Linear(a, k, ts) == [i \in DOMAIN ts |-> IF i > k THEN a[i] ELSE Scaled(a[IF Mut = "column" THEN 1 ELSE k], ts[i])]
Solve1(ts, cached) ==
    LET c == Columns(ts, cached)
        d == Linear(c.a, c.k, ts)
        off == IF Mut = "late" THEN d ELSE c.a
        raw == [i \in DOMAIN ts |-> IF i > c.p0 THEN off[i] ELSE None]
        o == IF Mut = "raw" THEN raw ELSE Linear(raw, c.k, ts)
    IN [ts |-> ts, d |-> d, o |-> o, first |-> IF cached = <<>> THEN c.g ELSE cached]
\* times given again are found once
Solve(ts, cached) ==
    LET u == IF Mut = "again" THEN ts ELSE Distinct(ts)
        r == Solve1(u, cached)
        at(i) == IF Mut = "again" THEN i ELSE IF Mut = "places" THEN Min2(i, Len(u)) ELSE Place(ts, i)
    IN [r EXCEPT !.ts = ts, !.d = [i \in DOMAIN ts |-> r.d[at(i)]], !.o = [i \in DOMAIN ts |-> r.o[at(i)]]]
R(S) == IF Gen THEN {RandomElement(S)} ELSE S
Init == obj = NoObj /\ log = <<>>
Next == /\ Len(log) < NEval
        /\ \E z \in IF Gen THEN R({1, 2, 3}) ELSE {1} : \E ts \in R(IF z = 1 THEN AllLists ELSE StrictLists), how \in R({"new", "eval"}), f \in IF Gen THEN R(FlowLists) ELSE {<<1>>}, c \in IF Gen THEN R({1, 2}) ELSE {1} :
             /\ obj' = Solve(ts, IF how = "new" THEN <<>> ELSE obj.first)
             /\ log' = Append(log, [how |-> IF log = <<>> THEN "new" ELSE how, ts |-> ts, f |-> f, c |-> c])
Spec == Init /\ [][Next]_vars
InvValues == \A i \in DOMAIN obj.ts : obj.d[i] = Want(obj.ts, i, Thr)
InvOther == \A i \in DOMAIN obj.ts : obj.o[i] = Want(obj.ts, i, Thr)
\* later times do not change earlier values
InvPrefix == \A k \in 1..Len(obj.ts) : LET p == SubSeq(obj.ts, 1, k) IN
    \A i \in 1..k : Solve(p, <<>>).d[i] = obj.d[i]
InvOrigin == \A i \in DOMAIN obj.ts : obj.ts[i] = 0 => obj.d[i].num = 0
Emit == Len(log) = NEval => PrintT("BEH " \o ToJson(log))
=============================================================================
