-------------------------------- MODULE Flow --------------------------------
(* Flow regimes in a pipe.  Reynolds numbers are in 1/100, Nusselt numbers   *)
(* in 1/1000.                                                                *)
EXTENDS Common
Lower == 230000
Upper == 400000
Regime(re) == IF re <= Lower THEN "laminar" ELSE IF re < Upper THEN "transition" ELSE "turbulent"
\* g/1000 of the way from the laminar to the turbulent value
Between(lam, turb, g) == lam + ((turb - lam) * g) \div 1000
Nusselt(re, lam, turb) == CASE Regime(re) = "laminar" -> lam
                            [] Regime(re) = "transition" -> Between(lam, turb, (re - Lower) \div 170)
                            [] OTHER -> turb

\* resistances in series from the fluid to the pipe, and between the fluids of
\* a coaxial pipe, from their parts
FluidToPipe(kind, x) ==
    CASE kind \in {"single", "series"} -> x.cond_out + x.film
      [] kind = "parallel" -> x.cond_out + x.film_half
      [] kind \in {"coax-in", "coax-out"} -> x.cond_out + x.film_ann_out
FluidToFluid(kind, x) ==
    IF kind \in {"coax-in", "coax-out"} THEN x.film + x.cond_in + x.film_ann_in ELSE 0
=============================================================================
