------------------------------- MODULE MCCases ------------------------------
(* A caller keeps a network and states one case after another; the library   *)
(* translates functions to the class, completes the inputs from the network, *)
(* checks them, and chooses the solver.                                      *)
EXTENDS Cases, TLC, Json
CONSTANTS NCalls, Opts, Mut, Gen
VARIABLES net, c, a, stage, out, calls, log
vars == <<net, c, a, stage, out, calls, log>>
R(S) == IF Gen THEN {RandomElement(S)} ELSE S
OneOf(S) == CHOOSE x \in R(S) : TRUE
None == [entry |-> "none"]
Nothing == [bc |-> "none", method |-> "none", opts |-> <<>>, flow |-> NoFlow, cp |-> "none"]
Rejected == [Nothing EXCEPT !.bc = "rejected"]
Nets == [flow : {"none", "total", "circuits"}, cp : BOOLEAN, series : BOOLEAN, uneven : BOOLEAN, mixed : BOOLEAN, tilted : BOOLEAN]
NoNet == [flow |-> "none", cp |-> FALSE, series |-> FALSE, uneven |-> FALSE, mixed |-> FALSE, tilted |-> FALSE]
Init == /\ net = NoNet /\ c = None /\ a = Nothing /\ stage = "new" /\ out = Nothing /\ calls = 0 /\ log = <<>>
Make == /\ stage = "new" /\ stage' = "idle"
        /\ net' \in IF Gen THEN R({x \in Nets : Cardinality({y \in {"series", "uneven", "mixed", "tilted"} : x[y]}) <= 1}) \cup R({x \in Nets : ~x.tilted})
                 ELSE {x \in Nets : x.tilted => x.flow # "circuits" /\ x.cp /\ ~x.uneven}
        /\ UNCHANGED <<c, a, out, calls, log>>
Flaws == {"", "duplicate", "empty", "segments", "ratios", "circuits"}
\* many: flows of several conditions at once
Case(entry, form, bc, method, given, cp, opts, flaw, many) ==
    [many |-> many, entry |-> entry, form |-> form, bc |-> bc, method |-> method, given |-> given, cp |-> cp, opts |-> opts, flaw |-> flaw]
\* statements that make sense as calls
Sensible(x) ==
    /\ x.opts \subseteq Accepts(x.entry)
    /\ x.entry = "field" => x.form = "field" /\ x.given = "none" /\ ~x.cp
    /\ x.entry \notin Direct => /\ x.bc = "none" /\ x.method \in {"none", "detailed", "similarities"}
                            /\ x.given \in (IF x.entry \in {"equal", "mixed"} THEN {"total", "circuits"} ELSE {"none"})
                            /\ x.cp = (x.entry \in {"equal", "mixed"})
    /\ x.entry = "equal" => x.form \in {"list", "field"}
    /\ x.entry = "mixed" => x.form = "net"
    /\ BCOf(x) # "MIFT" => x.given = "none" /\ ~x.cp
    /\ x.many => x.entry = "class" /\ x.given \in {"total", "circuits"}
    /\ x.flaw = "circuits" => BCOf(x) = "MIFT" /\ x.given = "circuits"
    /\ x.flaw \in {"duplicate", "empty"} => x.form = "list"
    /\ x.flaw \in {"segments", "ratios"} => x.entry # "uhtr"
Rare(S, x) == IF OneOf(1..12) = 1 THEN R(S) ELSE {x}
\* when generating: boundary conditions and flows that often go together
GCase(x0) ==
    LET e0 == OneOf(Entries \cup {"class1", "class2", "class3"})
        e == IF e0 \in Entries THEN e0 ELSE "class"
        f == IF e = "field" THEN "field" ELSE IF e = "equal" THEN OneOf({"list", "field"}) ELSE IF e = "mixed" THEN "net" ELSE OneOf({"hole", "list", "field", "net", "net2"})
        form == IF f = "net2" THEN "net" ELSE f
        b == IF e \notin Direct THEN "none" ELSE OneOf({"none", "none2", "UHTR", "UBWT"} \cup IF e = "class" THEN {"MIFT"} ELSE {})
        bc == IF b = "none2" THEN "none" ELSE b
        mift == e \in {"equal", "mixed"} \/ (e = "class" /\ (bc = "MIFT" \/ (bc = "none" /\ form = "net")))
    IN  { Case(e, form, bc2, m, g, IF e \in {"equal", "mixed"} THEN TRUE ELSE IF mift THEN OneOf({1, 2, 3}) # 1 ELSE FALSE, o, fl, many) :
            bc2 \in IF e \in Direct THEN Rare({"bad", "MIFT"}, bc) ELSE {bc},
            m \in R(IF e \in Direct THEN {"none", "detailed", "similarities", "equivalent"} ELSE {"none", "detailed", "similarities"}),
            g \in IF e \in {"equal", "mixed"} THEN R({"total", "circuits"}) ELSE IF mift THEN Rare({"both"}, OneOf({"none", "total", "circuits"})) ELSE {"none"},
            o \in {(OneOf(SUBSET Options)) \cap Accepts(e)},
            fl \in Rare(Flaws, ""), many \in IF e = "class" /\ mift THEN R(BOOLEAN) ELSE {FALSE} }
Call == /\ stage = "idle" /\ calls < NCalls
        /\ \E x \in IF Gen THEN GCase(log)
                    ELSE { Case(e, f, b, m, g, p, o, fl, FALSE) : e \in Entries, f \in {"hole", "list", "field", "net"}, b \in BCs \cup {"none", "bad"},
                           m \in Methods \cup {"none", "bad"}, g \in {"none", "total", "circuits", "both"}, p \in BOOLEAN, o \in Opts, fl \in {"", "ratios", "circuits"} } :
             /\ Sensible(x)
             /\ c' = x
             /\ log' = IF Gen THEN Append(log, [c |-> x, n |-> net, legal |-> Legal(x, net),
                                                plan |-> IF Legal(x, net) THEN Meaning(x, net) ELSE Nothing]) ELSE <<>>
        /\ calls' = calls + 1 /\ stage' = "translate" /\ a' = Nothing /\ out' = Nothing /\ UNCHANGED net
\* functions restate the case for the class; equal flows come with their own network
Translate ==
    /\ stage = "translate" /\ stage' = "format"
    /\ LET keep == [o \in Options |-> IF o \in c.opts /\ ~(Mut = "drop-kind" /\ o = "kind" /\ c.entry = "equal") THEN "given" ELSE "default"] IN
       a' = [ bc |-> CASE c.entry = "uhtr" -> "UHTR" [] c.entry = "ubwt" -> "UBWT" [] c.entry = "equal" -> "MIFT"
                       [] c.entry = "mixed" -> "MIFT" [] OTHER -> c.bc,
              method |-> IF c.entry \in Direct THEN c.method
                         ELSE IF (c.method = "detailed") # (Mut = "no-similarities") THEN "detailed" ELSE "similarities",
              opts |-> IF c.entry = "uhtr" /\ Mut # "segments" THEN [keep EXCEPT !["nSegments"] = "one"] ELSE keep,
              flow |-> CASE c.given = "none" -> NoFlow
                         [] c.entry = "equal" -> [how |-> IF c.given = "total" \/ Mut = "times" THEN "each" ELSE c.given, src |-> "given"]
                         [] c.entry = "mixed" /\ Mut = "drop-flow" -> NoFlow
                         [] OTHER -> [how |-> c.given, src |-> "given"],
              cp |-> IF c.cp /\ ~(Mut = "drop-capacity" /\ c.entry = "mixed") THEN "given" ELSE "none" ]
    /\ UNCHANGED <<net, c, out, calls, log>>
HasNet == c.form = "net" \/ c.entry = "equal"
Own == c.entry = "equal"
Format ==
    /\ stage = "format" /\ stage' = "check"
    /\ LET bc == IF a.bc # "none" THEN a.bc ELSE IF HasNet /\ Mut # "default-bc" THEN "MIFT" ELSE "UBWT"
           flow == IF ~Own /\ HasNet /\ (a.flow.how = "none" \/ (Mut = "stored-first" /\ net.flow # "none")) THEN [how |-> net.flow, src |-> "stored"] ELSE a.flow
           cp == IF a.cp = "none" /\ HasNet /\ ~Own /\ net.cp THEN "stored" ELSE a.cp
       IN  /\ a' = [a EXCEPT !.bc = bc, !.flow = flow, !.cp = cp]
           /\ net' = IF Mut = "remember" /\ HasNet /\ ~Own /\ a.flow.how \in {"total", "circuits"} THEN [net EXCEPT !.flow = a.flow.how] ELSE net
    /\ UNCHANGED <<c, out, calls, log>>
Bad == \/ c.flaw # "" /\ ~(Mut = "short-lists" /\ c.flaw \in {"segments", "ratios"})
       \/ a.bc \notin BCs \/ a.method \notin Methods \cup {"none"}
       \/ a.bc = "MIFT" /\ (~HasNet \/ a.flow.how \in ({"none", "both"} \ IF Mut = "both" THEN {"both"} ELSE {}) \/ a.cp = "none")
Check ==
    /\ stage = "check"
    /\ IF Bad THEN out' = Rejected /\ stage' = "idle" ELSE stage' = "solver" /\ UNCHANGED out
    /\ UNCHANGED <<net, c, a, calls, log>>
Unlike == \/ net.series /\ ~Own /\ Mut # "series"
          \/ net.uneven /\ a.flow.how = "circuits" /\ Mut # "uneven"
          \/ net.mixed /\ Mut # "pipes"
Solve ==
    /\ stage = "solver" /\ stage' = "idle"
    /\ LET m0 == IF a.method = "none" THEN "equivalent" ELSE a.method
           m == IF m0 = "equivalent" /\ a.bc = "MIFT" /\ Unlike THEN "similarities" ELSE m0 IN
       out' = IF net.tilted /\ (m = "equivalent" \/ (m0 = "equivalent" /\ Mut = "tilt-first")) /\ Mut # "tilt" THEN Rejected
              ELSE
              [ bc |-> a.bc, method |-> m, opts |-> a.opts,
                flow |-> IF a.bc = "MIFT" THEN a.flow ELSE NoFlow, cp |-> IF a.bc = "MIFT" THEN a.cp ELSE "none" ]
    /\ UNCHANGED <<net, c, a, calls, log>>
Next == Make \/ Call \/ Translate \/ Format \/ Check \/ Solve
Spec == Init /\ [][Next]_vars
Done == stage = "idle" /\ c # None
Rejects == Done => ((out = Rejected) <=> ~Legal(c, net))
Meant == Done /\ Legal(c, net) => out = Meaning(c, net)
Kept == [][stage = "new" \/ net' = net]_vars
Emit == Gen /\ calls = NCalls /\ stage = "idle" => PrintT("BEH " \o ToJson(log))
=============================================================================
