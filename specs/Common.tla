------------------------------- MODULE Common -------------------------------
(* Integer helpers shared by all specifications.  Physical quantities appear *)
(* as scaled integers: the harness maps the largest magnitude of a group of  *)
(* compared numbers to 10^7 and saturates at 10^8 (NaN: 1.2*10^8), so sums   *)
(* of a few numbers stay below 2^31.                                         *)
EXTENDS Integers, Sequences, FiniteSets

NaN == 120000000

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

\* a = b up to tol; never true of NaN
Close(a, b, tol) == a # NaN /\ b # NaN /\ Abs(a - b) <= tol
CloseSeq(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Close(s[i], t[i], tol)
CloseMat(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : CloseSeq(s[i], t[i], tol)

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
SumSeq(s) == SumTo(s, Len(s))
RECURSIVE MaxTo(_, _)
MaxTo(s, n) == IF n = 1 THEN s[1] ELSE Max2(s[n], MaxTo(s, n - 1))
MaxSeq(s) == MaxTo(s, Len(s))
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* floor division rounded to nearest
RDiv(a, b) == (2 * a + b) \div (2 * b)

RECURSIVE FlatTo(_, _)
FlatTo(s, n) == IF n = 0 THEN <<>> ELSE FlatTo(s, n - 1) \o s[n]
Flat(s) == FlatTo(s, Len(s))
Const(n, v) == [i \in 1..n |-> v]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Range(s) == {s[i] : i \in DOMAIN s}
IsIncreasing(s) == \A i \in 1..Len(s) - 1 : s[i] < s[i + 1]

\* the set of names of the clauses of a function [name |-> truth] that fail
Failing(f) == {c \in DOMAIN f : ~f[c]}
=============================================================================
