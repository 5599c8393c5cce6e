------------------------------ MODULE Borefield -----------------------------
(* Borefields as values: a field is a sequence of boreholes (identified by   *)
(* numbers) that no operation modifies.  Indices are those of Python.        *)
EXTENDS Common
None == 999

\* start and stop of a slice of a sequence of n items, as 0-based positions
Wrap(x, n) == IF x < 0 THEN x + n ELSE x
Clip(x, lo, hi) == Max2(lo, Min2(x, hi))
Start(a, st, n) == IF st > 0 THEN (IF a = None THEN 0 ELSE Clip(Wrap(a, n), 0, n))
                   ELSE (IF a = None THEN n - 1 ELSE Clip(Wrap(a, n), 0 - 1, n - 1))
Stop(b, st, n) == IF st > 0 THEN (IF b = None THEN n ELSE Clip(Wrap(b, n), 0, n))
                  ELSE (IF b = None THEN 0 - 1 ELSE Clip(Wrap(b, n), 0 - 1, n - 1))
RECURSIVE Walk(_, _, _, _)
Walk(s, i, stop, st) == IF (st > 0 /\ i >= stop) \/ (st < 0 /\ i <= stop) THEN <<>>
                        ELSE <<s[i + 1]>> \o Walk(s, i + st, stop, st)
Slice(s, a, b, st) == Walk(s, Start(a, st, Len(s)), Stop(b, st, Len(s)), st)
InRange(i, n) == 0 - n <= i /\ i < n
Item(s, i) == IF InRange(i, Len(s)) THEN s[Wrap(i, Len(s)) + 1] ELSE 0 - 9
Take(s, ix) == [k \in 1..Len(ix) |-> Item(s, ix[k])]
\* of a mask that is as long as the field
RECURSIVE MaskTo(_, _, _)
MaskTo(s, m, k) == IF k = 0 THEN <<>> ELSE MaskTo(s, m, k - 1) \o (IF m[k] = 1 THEN <<s[k]>> ELSE <<>>)
Mask(s, m) == IF Len(m) = Len(s) THEN MaskTo(s, m, Len(s)) ELSE <<0 - 9>>

\* fields an operation makes
Makes == {"new", "slice", "take", "mask", "add", "addb", "raddb", "addl", "raddl", "bb", "bl", "lb", "rt", "file"}
\* value of the field made by operation o when the slots hold v
Value(v, o) ==
    CASE o.op = "new"   -> o.ids
      [] o.op = "slice" -> Slice(v[o.s], o.a, o.b, o.st)
      [] o.op = "take"  -> Take(v[o.s], o.ix)
      [] o.op = "mask"  -> Mask(v[o.s], o.ix)
      [] o.op = "add"   -> v[o.s] \o v[o.t]
      [] o.op = "addb"  -> Append(v[o.s], o.id)
      [] o.op = "raddb" -> <<o.id>> \o v[o.s]
      [] o.op = "addl"  -> v[o.s] \o o.ids
      [] o.op = "raddl" -> o.ids \o v[o.s]
      [] o.op = "bb"    -> <<o.id, o.id2>>
      [] o.op = "bl"    -> <<o.id>> \o o.ids
      [] o.op = "lb"    -> Append(o.ids, o.id)
      [] o.op \in {"rt", "file"} -> v[o.s]
=============================================================================
