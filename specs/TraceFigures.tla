---------------------------- MODULE TraceFigures ----------------------------
(* Figures drawn by the real code, compared with an independent solution.    *)
(* Positions are given in tenths of millimetres, colours by number.          *)
EXTENDS TraceBase, Figures
VARIABLES l, bad, f, s
vars == <<l, bad, f, s>>
NoField == [nb |-> 0]
NoSolution == [nt |-> 0]
Init == l = 1 /\ bad = <<>> /\ f = NoField /\ s = NoSolution
Sol(e) == [v |-> 1, nb |-> f.nb, nf |-> f.nf, nt |-> s.nt]
SamePoint(p, q) == CloseSeq(p, q, 2)
SamePoints(a, b) == /\ Len(a) = Len(b)
                    /\ \A i \in DOMAIN a : \E j \in DOMAIN b : SamePoint(a[i], b[j])
                    /\ \A i \in DOMAIN b : \E j \in DOMAIN a : SamePoint(b[i], a[j])
\* marks of a borehole
Marks(fig, b) == {i \in DOMAIN fig.marks : SamePoints(fig.marks[i].at, f.heads[b])}
Marked(fig) == Len(fig.marks) = f.nb /\ \A b \in 1..f.nb : Cardinality(Marks(fig, b)) = 1
Colour(fig, b) == fig.marks[CHOOSE i \in Marks(fig, b) : TRUE].c
\* the curve of a borehole (n: flow condition, from 1)
At(m, e) == LET p == IF e.r.at = 0 THEN s.nt ELSE e.r.at IN
            IF e.w = 0 THEN m[p] ELSE [i \in DOMAIN m[p] |-> (m[p][i] * (100 - e.w) + m[p + 1][i] * e.w) \div 100]
Curve(e, b, n) ==
    CASE e.r.kind = "rates" -> [x |-> s.lt, y |-> s.q[n][b]]
      [] e.r.kind = "temperatures" -> [x |-> s.lt, y |-> s.t[n][b]]
      [] e.r.kind = "rate profiles" -> [x |-> At(s.sq[n][b], e), y |-> s.zq[b]]
      [] OTHER -> [x |-> At(s.st[n][b], e), y |-> s.zt[b]]
SameCurve(c, d) == CloseSeq(c.x, d.x, s.tol) /\ CloseSeq(c.y, d.y, s.tol)
Curved(e, fig, n) ==
    LET ch == Range(Chosen(e.r, Sol(e))) IN
    /\ Len(fig.curves) = Cardinality(ch)
    /\ \A b \in ch : \E i \in DOMAIN fig.curves : fig.curves[i].c = Colour(fig, b) /\ SameCurve(fig.curves[i], Curve(e, b, n))
Distinct(e, fig) ==
    LET ch == Range(Chosen(e.r, Sol(e))) IN
    /\ \A a, b \in ch : a # b => Colour(fig, a) # Colour(fig, b)
    /\ \A b \in 1..f.nb : b \in ch \/ \A i \in DOMAIN fig.curves : fig.curves[i].c # Colour(fig, b)
\* a figure is entitled by its flow, of each circuit or in total
\* inclinations: from the head to the point above the bottom
Inclined(e, fig) ==
    IF ~e.r.tilt THEN fig.tilts = <<>>
    ELSE /\ Len(fig.tilts) = SumSeq([b \in 1..f.nb |-> Len(f.heads[b])])
         /\ \A b \in 1..f.nb : \A k \in DOMAIN f.heads[b] : \E i \in DOMAIN fig.tilts :
               /\ fig.tilts[i].c = Colour(fig, b) /\ SamePoint(fig.tilts[i].a, f.heads[b][k]) /\ SamePoint(fig.tilts[i].b, f.ends[b][k])
Drew(e) ==
    LET c == Conditions(e.r, Sol(e))  F == e.figs IN
    IF e.err # "" THEN [ Drawn |-> FALSE ]
    ELSE IF Len(F) # Len(c) THEN [ OneFigurePerFlow |-> FALSE ]
    ELSE IF \E k \in DOMAIN F : ~Marked(F[k]) THEN [ Marks |-> FALSE ]
    ELSE [ LastReturned |-> e.last,
           Title |-> f.nf > 0 => \A k \in DOMAIN F : CloseSeq(F[k].title, f.flows[c[k]], 2) \/ CloseSeq(F[k].title, <<SumSeq(f.flows[c[k]])>>, 5),
           Curves |-> \A k \in DOMAIN F : Curved(e, F[k], IF f.nf = 0 THEN 1 ELSE c[k]),
           Colours |-> \A k \in DOMAIN F : Distinct(e, F[k]),
           Inclinations |-> \A k \in DOMAIN F : Inclined(e, F[k]),
           Kept |-> e.kept ]
\* lines of the figure of g-functions, in the order asked (all pairs when none is)
GFigure(e) ==
    LET P == {<<i, j>> : i, j \in 1..Max2(1, f.nf)} IN
    IF e.err # "" THEN [ Drawn |-> FALSE ]
    ELSE [ Lines |-> IF e.every THEN Len(e.lines) = Cardinality(P) ELSE Len(e.lines) = Len(e.pairs),
           Values |-> IF f.nf = 0 THEN Len(e.lines) = 1 /\ SameCurve(e.lines[1], [x |-> s.lt, y |-> s.g[1][1]])
                      ELSE /\ \A i \in DOMAIN e.lines : /\ e.lines[i].p \in P
                                                        /\ SameCurve(e.lines[i], [x |-> s.lt, y |-> s.g[e.lines[i].p[1]][e.lines[i].p[2]]])
                           /\ IF e.every THEN {e.lines[i].p : i \in DOMAIN e.lines} = P
                              ELSE \A i \in DOMAIN e.lines : e.lines[i].p = e.pairs[i],
           Kept |-> e.kept ]
\* the figure of a field: heads and inclinations from above, numbered, and in space
Once(S, p) == Cardinality({i \in DOMAIN S : SamePoint(S[i], p)}) = 1
FieldFigure(e) ==
    IF e.err # "" THEN [ Drawn |-> FALSE ]
    ELSE LET n == Len(e.heads)  B == 1..n IN
    [ Views |-> e.views = (IF e.top THEN <<"top">> ELSE <<>>) \o (IF e.space THEN <<"space">> ELSE <<>>),
      Heads |-> IF e.top THEN Len(e.f.heads) = n /\ \A b \in B : Once(e.f.heads, e.heads[b]) ELSE e.f.heads = <<>>,
      Inclinations |-> IF e.top /\ e.tilt THEN Len(e.f.tilts) = n /\ \A b \in B : \E i \in B : SamePoint(e.f.tilts[i], e.heads[b] \o e.bottoms[b])
                       ELSE e.f.tilts = <<>>,
      Numbers |-> IF e.top /\ e.labels THEN Len(e.f.labels) = n /\ \A b \in B : \E i \in B : e.f.labels[i].k = b - 1 /\ SamePoint(e.f.labels[i].at, e.heads[b])
                  ELSE e.f.labels = <<>>,
      Space |-> IF e.space THEN /\ Len(e.f.heads3) = n /\ \A b \in B : Once(e.f.heads3, Append(e.heads[b], e.depth[b]))
                                /\ Len(e.f.lines3) = n
                                /\ \A b \in B : \E i \in B : SamePoint(e.f.lines3[i], Append(e.heads[b], e.depth[b]) \o Append(e.bottoms[b], e.under[b]))
                ELSE e.f.heads3 = <<>> /\ e.f.lines3 = <<>>,
      Kept |-> e.kept ]
\* the section of a borehole: its wall, and two circles for each pipe; the two
\* pipes of a U-tube (or of a coaxial exchanger) have one colour
PipeFigure(e) ==
    IF e.err # "" THEN [ Drawn |-> FALSE ]
    ELSE LET n == Len(e.pipes)
             Is(c, at, r) == Close(c.r, r, 2) /\ SamePoint(c.at, at)
             C(b, outer) == {i \in DOMAIN e.circles : Is(e.circles[i], e.pipes[b].at, IF outer THEN e.pipes[b].out ELSE e.pipes[b].in)} IN
    [ Circles |-> Len(e.circles) = 1 + 2 * n,
      Wall |-> \E i \in DOMAIN e.circles : Is(e.circles[i], <<0, 0>>, e.wall),
      Pipes |-> \A b \in 1..n : C(b, TRUE) # {} /\ C(b, FALSE) # {},
      Colours |-> \A a, b \in 1..n : \A o, q \in BOOLEAN : \A i \in C(a, o), j \in C(b, q) :
                     (e.circles[i].c = e.circles[j].c) <=> (e.pipes[a].tube = e.pipes[b].tube),
      Numbers |-> /\ Len(e.labels) = n
                  /\ \A b \in 1..n : \E i \in 1..n : /\ e.labels[i].k = b - 1
                                                      /\ IF e.coaxial THEN LET x == e.labels[i].at[1] - e.pipes[b].at[1] IN
                                                                          e.labels[i].at[2] = e.pipes[b].at[2] /\ e.pipes[b].from <= x /\ x <= e.pipes[b].in
                                                         ELSE SamePoint(e.labels[i].at, e.pipes[b].at),
      Kept |-> e.kept ]
Clauses(e) ==
    CASE e.ev = "Field" -> [ Shape |-> Len(e.heads) = e.nb ]
      [] e.ev = "Solved" -> [ Shape |-> Len(e.lt) = e.nt ]
      [] e.ev = "Drew" -> Drew(e)
      [] e.ev = "GFigure" -> GFigure(e)
      [] e.ev = "FieldFigure" -> FieldFigure(e)
      [] e.ev = "PipeFigure" -> PipeFigure(e)
      [] e.ev = "Exc" -> [ NoException |-> FALSE ]
      [] OTHER -> [ Known |-> e.ev = "Reset" ]
Next == /\ l <= NLines
        /\ LET e == Trace[l] IN
           /\ bad' = AddAll(bad, l, Failing(Clauses(e)))
           /\ f' = IF e.ev = "Field" THEN e ELSE IF e.ev = "Reset" THEN NoField ELSE f
           /\ s' = IF e.ev = "Solved" THEN e ELSE IF e.ev = "Reset" THEN NoSolution ELSE s
        /\ l' = l + 1
        /\ IF l < NLines THEN TRUE ELSE Verdict(l, bad')
Spec == Init /\ [][Next]_vars
=============================================================================
