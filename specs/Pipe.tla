-------------------------------- MODULE Pipe --------------------------------
(* Flow paths in a borehole with n U-tubes (a coaxial pipe is one U-tube).   *)
(* Pipes 1..n are the inlets and n+1..2n the outlets of the U-tubes in the   *)
(* forward direction.  kind is "par", "ser" or "ind"; rev[k] tells whether   *)
(* circuit k flows in the opposite direction.                                *)
EXTENDS Common

Circuits(kind, n) == IF kind = "ind" THEN n ELSE 1
\* circuit that U-tube i belongs to
CircOf(kind, i) == IF kind = "ind" THEN i ELSE 1
\* downward and upward pipes of U-tube i
Down(kind, n, rev, i) == IF rev[CircOf(kind, i)] THEN n + i ELSE i
Up(kind, n, rev, i) == IF rev[CircOf(kind, i)] THEN i ELSE n + i
\* U-tube that feeds U-tube i (0: the inlet)
Feeds(kind, n, rev, i) ==
    IF kind # "ser" THEN 0
    ELSE IF rev[1] THEN (IF i = n THEN 0 ELSE i + 1)
    ELSE i - 1
\* U-tubes that supply the outlet of circuit k
Last(kind, n, rev, k) == IF kind = "ind" THEN {k}
                         ELSE IF kind = "par" THEN 1..n
                         ELSE {IF rev[1] THEN 1 ELSE n}
\* share of the flow rate of the circuit in each U-tube is 1 / Split
Split(kind, n) == IF kind = "par" THEN n ELSE 1
=============================================================================
