-------------------------------- MODULE Gran -------------------------------
(* Gran-plot first estimates (Dickson, Afghan & Anderson 2003 eqs 10-11). *)
EXTENDS Nernst

GranFunc(tm, emf, t, am) == (tm \oplus am) \otimes RExp(emf \oslash Slope(t))
\* which points are fitted
GranUsed(g, logic) ==
  LET mx == VMax(g)
      lo == R("0.1") \otimes mx   hi == R("0.9") \otimes mx
      big == Map(g, LAMBDA x : lo \prec x)
      first == CHOOSE i \in 1..Len(g) : big[i] /\ \A j \in 1..(i-1) : ~big[j]
  IN  IF logic = "legacy" THEN Map(g, LAMBDA x : lo \prec x /\ x \prec hi)
      ELSE TLCEval([i \in 1..Len(g) |-> i >= first])
\* distance of the selection from flipping, relative to the maximum
GranMargin(g, logic) ==
  LET mx == VMax(g)
      d(x) == LET a == RAbs(x \ominus (R("0.1") \otimes mx))
                  b == RAbs(x \ominus (R("0.9") \otimes mx))
              IN  IF logic = "legacy" THEN RMin(a, b) ELSE a
  IN  VMin(Map(g, d)) \oslash mx
\* P: [tm, emf, temp, am], m molinity, nu normality
GranAlk(P, m, nu, logic) ==
  LET g == Tab(Len(P.tm), LAMBDA i : GranFunc(P.tm[i], P.emf[i], P.temp[i], P.am))
      used == GranUsed(g, logic)
      fit == LinFit(Pick(P.tm, used), Pick(g, used))
      x0 == RNeg(fit.intercept) \oslash fit.slope
  IN  [gfunc |-> g, used |-> used, fit |-> fit, x0 |-> x0,
       alk |-> ((x0 \otimes m) \otimes nu) \oslash P.am]
GranEmf0s(P, m, nu, alk) ==
  Tab(Len(P.tm), LAMBDA i :
    P.emf[i] \ominus (Slope(P.temp[i]) \otimes
      RLn((((P.tm[i] \otimes m) \otimes nu) \ominus (P.am \otimes alk)) \oslash (P.tm[i] \oplus P.am))))
GranGuess(P, m, nu, logic) ==
  LET ga == GranAlk(P, m, nu, logic)
      e0s == GranEmf0s(P, m, nu, ga.alk)
      e0 == Mean(Pick(e0s, ga.used))
  IN  [alk |-> ga.alk, gfunc |-> ga.gfunc, used |-> ga.used, x0 |-> ga.x0, fit |-> ga.fit,
       emf0s |-> e0s, emf0 |-> e0,
       pH |-> Tab(Len(P.tm), LAMBDA i : EmfToPH(P.emf[i], e0, P.temp[i]))]
=============================================================================
