----------------------------- MODULE TraceBase ------------------------------
(* Skeleton of a trace specification.  A trace is a sequence of episodes,    *)
(* each starting with a Reset event; every event moves the abstract state    *)
(* and yields the set of clauses it fails.  The verdict is total: the whole  *)
(* trace is always consumed, and the failing (line, clause) pairs printed.   *)
EXTENDS Common, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NLines == Len(Trace)

\* adds at most 100 failures
RECURSIVE AddAll(_, _, _)
AddAll(bad, line, cs) ==
    IF cs = {} \/ Len(bad) >= 100 THEN bad
    ELSE LET c == CHOOSE x \in cs : TRUE IN
         AddAll(Append(bad, <<line, c>>), line, cs \ {c})

\* an unexpected exception or a time out of the code ends the episode
IsExc(e) == e.ev = "Exc"
Verdict(n, bad) == PrintT("VERDICT " \o ToJson([n |-> n, bad |-> bad]))
=============================================================================
