------------------------------ MODULE CoefCache ------------------------------
(* Pipes and networks remember the coefficients of the last call of each     *)
(* method and the model variables of the last call of any method, with the   *)
(* arguments they belong to.  Arguments are objects of the caller (flow      *)
(* rates, segment ratios) whose contents may change between calls.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Methods, FObjs, FVals, Segs, RObjs, RVals, Res, Mut, Gen
VARIABLES fc, rc, res,       \* contents of the objects, thermal resistance in force
          mem, model,        \* what the object remembers
          out, want,         \* last result, and what it should be
          log
vars == <<fc, rc, res, mem, model, out, want, log>>

None == [f |-> -1, s |-> -1, r |-> -1]
\* an argument as remembered: contents, or (wrong) the object itself
KeepF(o) == IF Mut = "alias-flow" THEN [obj |-> o] ELSE [val |-> fc[o]]
KeepR(o) == IF Mut = "alias-ratio" /\ o # 0 THEN [obj |-> o] ELSE [val |-> IF o = 0 THEN 0 ELSE rc[o]]
ReadF(x) == IF "obj" \in DOMAIN x THEN fc[x.obj] ELSE x.val
ReadR(x) == IF "obj" \in DOMAIN x THEN rc[x.obj] ELSE x.val
RVal(o) == IF o = 0 THEN 0 ELSE rc[o]

Empty == [full |-> FALSE]
Init == /\ fc \in [FObjs -> {1}] /\ rc \in [RObjs -> {1}] /\ res = 1
        /\ mem = [m \in Methods |-> Empty] /\ model = Empty
        /\ out = <<>> /\ want = <<>> /\ log = <<>>
Log(x) == log' = IF Gen > 0 THEN Append(log, x) ELSE log

Same(x, f, s, r) ==
    /\ x.full
    /\ ReadF(x.f) = fc[f]
    /\ x.s = s \/ Mut = "key-segments"
    /\ ReadR(x.r) = RVal(r) \/ Mut = "key-ratios"
\* calling method m: remembered coefficients if the arguments are those
\* remembered, otherwise computed from the model variables, which are first
\* brought up to date
Query(m, f, s, r) ==
    LET now == [full |-> TRUE, f |-> KeepF(f), s |-> s, r |-> KeepR(r), v |-> <<fc[f], s, RVal(r), res>>]
        hit == Same(mem[m], f, s, r)
        mhit == Same(model, f, s, r)
        mod == IF mhit THEN model ELSE now
        val == mod.v
    IN  /\ out' = IF hit THEN mem[m].v ELSE val
        /\ want' = <<fc[f], s, RVal(r), res>>
        /\ mem' = IF hit THEN mem ELSE [mem EXCEPT ![m] = [now EXCEPT !.v = val]]
        /\ model' = IF hit THEN model ELSE mod
        /\ UNCHANGED <<fc, rc, res>>
        /\ Log(<<"Query", m, f, s, r>>)
ChangeF(o, v) == /\ fc[o] # v /\ fc' = [fc EXCEPT ![o] = v]
                 /\ UNCHANGED <<rc, res, mem, model, out, want>> /\ Log(<<"Flow", o, v>>)
ChangeR(o, v) == /\ rc[o] # v /\ rc' = [rc EXCEPT ![o] = v]
                 /\ UNCHANGED <<fc, res, mem, model, out, want>> /\ Log(<<"Ratio", o, v>>)
\* updating the resistances forgets everything
Update(x) == /\ res # x /\ res' = x
             /\ IF Mut = "keep" THEN UNCHANGED <<mem, model>>
                ELSE IF Mut = "keep-model" THEN mem' = [m \in Methods |-> Empty] /\ UNCHANGED model
                ELSE mem' = [m \in Methods |-> Empty] /\ model' = Empty
             /\ UNCHANGED <<fc, rc, out, want>> /\ Log(<<"Update", x>>)
\* the caller changes in place the results of the last call of m, which must
\* not be (wrong: are) the remembered coefficients
Spoil(m) == /\ mem[m].full
            /\ mem' = IF Mut = "alias-result" THEN [mem EXCEPT ![m].v = <<0>>] ELSE mem
            /\ UNCHANGED <<fc, rc, res, model, out, want>> /\ Log(<<"Spoil", m>>)
Next == \/ \E m \in Methods, f \in FObjs, s \in Segs, r \in RObjs \cup {0} : Query(m, f, s, r)
        \/ \E o \in FObjs, v \in FVals : ChangeF(o, v)
        \/ \E o \in RObjs, v \in RVals : ChangeR(o, v)
        \/ \E x \in Res : Update(x)
        \/ \E m \in Methods : Spoil(m)
\* generation: three queries, then one change
GenNext == IF Len(log) % 4 = 3
           THEN IF Len(log) % 8 = 7 THEN \E x \in Res : Update(x)
                ELSE \/ \E o \in FObjs, v \in FVals : ChangeF(o, v)
                     \/ \E o \in RObjs, v \in RVals : ChangeR(o, v)
                     \/ \E m \in Methods : Spoil(m)
           ELSE \E m \in Methods, f \in FObjs, s \in Segs, r \in RObjs \cup {0} : Query(m, f, s, r)
Spec == Init /\ [][IF Gen > 0 THEN GenNext ELSE Next]_vars

\* a result is that of the current contents and the current resistances
Fresh == out = want
Emit == Gen > 0 /\ Len(log) >= Gen => PrintT("BEH " \o ToJson(log))
NoHist == <<fc, rc, res, mem, model, out, want>>
=============================================================================
