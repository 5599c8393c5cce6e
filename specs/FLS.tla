-------------------------------- MODULE FLS ---------------------------------
(* Mutual responses of vertical line sources, in cells.  A line occupies the *)
(* cells z .. z + h - 1 of column c.  A cell answers to another through an   *)
(* arbitrary even kernel of the distance between columns and the difference  *)
(* of depths, and to the mirror image of it above ground with the opposite   *)
(* sign.  All that is stated is linear in the kernel, so that kernels which  *)
(* are one at a single pair of distances stand for all.                      *)
EXTENDS Common
Col(a, b) == Abs(a.c - b.c)
Ker(k, dc, dz) == IF dc = k.c /\ Abs(dz) = k.z THEN 1 ELSE 0
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
Sum2(A, B, f) == SumOver(A \X B, f)
Cells(a) == a.z..(a.z + a.h - 1)
Real(k, a, b) == Sum2(Cells(a), Cells(b), [p \in Cells(a) \X Cells(b) |-> Ker(k, Col(a, b), p[1] - p[2])])
\* cell j has its image in cell -1 - j
Image(k, a, b) == Sum2(Cells(a), Cells(b), [p \in Cells(a) \X Cells(b) |-> 0 - Ker(k, Col(a, b), p[1] + p[2] + 1)])
\* twice the second antidifference of the kernel, zero at zero and even:
\* E(q + 1) - 2 E(q) + E(q - 1) = 2 Ker(q)
E(k, dc, q) == IF dc # k.c THEN 0
               ELSE LET m == Abs(q) IN
                    IF k.z = 0 THEN m ELSE IF m > k.z THEN 2 * (m - k.z) ELSE 0
\* the forms used by the code, twice the response
TwiceReal(k, a, b) == LET d == Col(a, b) IN
    E(k, d, b.z - a.z + b.h) - E(k, d, b.z - a.z) + E(k, d, b.z - a.z - a.h) - E(k, d, b.z - a.z + b.h - a.h)
TwiceImage(k, a, b) == LET d == Col(a, b) IN
    E(k, d, b.z + a.z + b.h) - E(k, d, b.z + a.z) + E(k, d, b.z + a.z + a.h) - E(k, d, b.z + a.z + b.h + a.h)
\* sums of blocks of a matrix: p[i] is the line that line i is a piece of
BlockSums(m, p, n) == [i \in 1..n |-> [j \in 1..n |->
    LET I == {x \in 1..Len(p) : p[x] = i}  J == {y \in 1..Len(p) : p[y] = j} IN
    Sum2(I, J, [q \in I \X J |-> m[q[1]][q[2]]])]]
\* pieces after line k is cut: it stays in place and its lower part comes last
CutParents(p, k) == Append(p, p[k])
SwapAt(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
=============================================================================
