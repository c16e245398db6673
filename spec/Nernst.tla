------------------------------- MODULE Nernst ------------------------------
(* The electrode: E = E0 + (R T / F) ln [H+], E in mV, T in degrees C. *)
EXTENDS Vec
Faraday == R("96.4853365")
GasR == R("8.3144621")
AbsZero == R("273.15")
\* RT/F in mV
Slope(t) == (GasR \otimes (t \oplus AbsZero)) \oslash Faraday
EmfToH(emf, emf0, t) == RExp((emf \ominus emf0) \oslash Slope(t))
HToEmf(h, emf0, t) == emf0 \oplus (RLn(h) \otimes Slope(t))
EmfToPH(emf, emf0, t) == RNeg(RLog10(EmfToH(emf, emf0, t)))
PHToEmf(pH, emf0, t) == HToEmf(RPow(R("10"), RNeg(pH)), emf0, t)
FToDemf0(f, t) == RLn(f) \otimes Slope(t)
=============================================================================
