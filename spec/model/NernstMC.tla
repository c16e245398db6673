------------------------------ MODULE NernstMC -----------------------------
(* Laws of the electrode equation over a grid of pH, EMF0 and temperature.  *)
EXTENDS Nernst
VARIABLES p, e, t     \* pH * 2, EMF0 / 100 mV, temperature / 5 C
vars == <<p, e, t>>
Init == e \in -6..8 /\ t \in 0..8 /\ p = -2
Next == p < 28 /\ p' = p + 1 /\ UNCHANGED <<e, t>>
Spec == Init /\ [][Next]_vars
pH == R(p) \oslash R("2")
E0 == R(100 * e)
Tc == R(5 * t)
Emf == PHToEmf(pH, E0, Tc)
Near(a, b) == Close(a, b, R("1e-9"), Zero)
Inverse == Near(EmfToPH(Emf, E0, Tc), pH) /\ Close(HToEmf(EmfToH(Emf, E0, Tc), E0, Tc), Emf, R("1e-9"), Zero)
Shift == Near(EmfToPH(Emf \oplus R("37.5"), E0 \oplus R("37.5"), Tc), pH)
\* 59 mV per pH at 25 C, more when warmer, and less EMF at higher pH
Slope25 == Close(Slope(R("25")) \otimes RLn(R("10")), R("59.16"), R("0.01"), Zero)
Steeper == Slope(Tc) \prec Slope(Tc \oplus One)
Falls == PHToEmf(pH \oplus One, E0, Tc) \prec Emf
\* an EMF0 that is off by the change for f scales [H+] by 1/f
Factor == LET f == R("1.05") IN Close(EmfToH(Emf, E0 \oplus FToDemf0(f, Tc), Tc) \otimes f, EmfToH(Emf, E0, Tc), Zero, R("1e-12"))
Inv == Inverse /\ Shift /\ Slope25 /\ Steeper /\ Falls /\ Factor
=============================================================================
