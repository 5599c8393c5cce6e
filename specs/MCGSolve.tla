------------------------------ MODULE MCGSolve -------------------------------
(* Loads of one source are chosen step by step; the last one is still zero   *)
(* when its contribution is not known.  Responses that are one from some     *)
(* time on stand for all.  M is a multiple of all lengths of steps.          *)
EXTENDS GSolve
CONSTANTS Steps, Loads, N, M, Mut
VARIABLES tau, Q, u
vars == <<tau, Q, u>>
Init == tau = <<>> /\ Q = <<>> /\ u \in 1..(MaxOf(Steps) * N)
Next == /\ Len(tau) < N
        /\ \E d \in Steps, q \in Loads :
             /\ tau' = Append(tau, (IF tau = <<>> THEN 0 ELSE tau[Len(tau)]) + d)
             /\ Q' = Append(Q, q)
        /\ UNCHANGED u
Spec == Init /\ [][Next]_vars
n == Len(tau)
Past == [Q EXCEPT ![n] = 0]
Kern(t) == IF t >= u THEN 1 ELSE 0
R == CASE Mut = "lost" -> [Rebuilt(tau, Past) EXCEPT ![n] = 0]
       [] Mut = "order" -> [k \in 1..n |-> Past[n + 1 - k] * Lengths(tau)[k]]
       [] OTHER -> Rebuilt(tau, Past)
L == IF Mut = "lengths" THEN Dt(tau) ELSE Lengths(tau)
\* loads in units of 1 / M
Load(k) == IF k = 0 THEN 0 ELSE R[k] * (M \div L[k])
Change(k) == IF Mut = "change" /\ k = 1 THEN 0 ELSE Load(k) - Load(k - 1)
Time(k) == IF Mut = "forward" THEN tau[k] ELSE IF Mut = "shift" /\ k < n THEN tau[n - k] ELSE tau[n + 1 - k]
T0 == SumSeq([k \in 1..n |-> Kern(Time(k)) * Change(k)])
Some == n > 0
Uniform == Some /\ \A k \in 1..n : Dt(tau)[k] = tau[1]
\* what the loads produce at the end
Direct(q, d, s) == SumSeq([k \in 1..n |-> q[k] * (Kern(tau[n] - s[k]) - Kern(tau[n] - s[k] - d[k]))])
InvEnergy == Some => SumSeq(R) = Energy(tau, Past, tau[n])
InvKnown == Some => \A k \in 1..n : tau[n] - Edges(tau)[k] = tau[n + 1 - k]
InvBounds == Some => \A k \in 1..n : Load(k) >= 0 /\ Load(k) <= M * MaxSeq(Past)
InvRebuilt == Some => T0 = Direct([k \in 1..n |-> Load(k)], L, [k \in 1..n |-> Edges(tau)[k]])
InvUniform == Uniform => T0 + M * Kern(tau[1]) * Q[n] = M * Direct(Q, Dt(tau), [k \in 1..n |-> tau[k] - tau[1]])
InvFirst == n = 1 => T0 = 0
=============================================================================
