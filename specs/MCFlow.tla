------------------------------- MODULE MCFlow -------------------------------
(* The flow rate of a pipe goes up and down, and reverses.                   *)
EXTENDS Flow, TLC
CONSTANTS Step, Top, Mut
VARIABLES m, nu, was
vars == <<m, nu, was>>
Re(x) == IF Mut = "sign" THEN x ELSE Abs(x)
Lam == 3660
\* any increasing turbulent value
Turb(re) == 30000 + (Max2(re, Upper) - Upper) \div 20
Value(x) == LET re == Re(x) IN
    CASE Mut = "gap" -> Nusselt(IF re > 300000 THEN Max2(re, Upper) ELSE re, Lam, Turb(re))
      [] Mut = "turn" /\ Regime(re) = "transition" -> Between(Turb(re), Lam, (re - Lower) \div 170)
      [] Mut = "late" -> IF re < Lower + 3400 THEN Lam ELSE Nusselt(re, Lam, Turb(re))
      [] OTHER -> Nusselt(re, Lam, Turb(re))
Init == m = 0 /\ nu = Value(0) /\ was = Value(0)
Change == \E d \in {Step, 0 - Step} : Abs(m + d) <= Top /\ m' = m + d /\ nu' = Value(m + d) /\ was' = nu
Next == Change
Spec == Init /\ [][Next]_vars
\* no jump larger than the steepest slope allows
InvContinuous == Abs(nu - was) <= (30000 * Step) \div 170000 + 2
InvMagnitude == Value(m) = Value(0 - m)
InvMonotone == m > 0 => Value(m + Step) >= Value(m)
InvLimits == nu >= Lam
=============================================================================
