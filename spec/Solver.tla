------------------------------- MODULE Solver ------------------------------
(***************************************************************************)
(* Solving and calibrating one titration.                                  *)
(*                                                                         *)
(* A problem P is a record                                                 *)
(*   tm, temp    titrant masses (kg) and temperatures (C), per point       *)
(*   meas        measurements: EMF (mV) or pH                              *)
(*   am          analyte mass (kg)                                         *)
(*   T           diluted analyte totals WITHOUT the titrant's solutes      *)
(*   K           equilibrium constants, per point                          *)
(*   add         titrant-borne solutes: total name -> factor               *)
(*   nu          titrant normality                                         *)
(*   lo, hi      pH window                                                 *)
(*   mode        "emf", "pH_adjust", "pH", "pH_gran"                       *)
(*   double      two selection passes?                                     *)
(*   alk0, emf00 initial guesses (umol/kg, mV) or "none"                   *)
(*   logic       Gran logic                                                *)
(* The solution is an optimum or a mean over exactly the in-window points; *)
(* margin is the smallest distance in pH of any point from the window's    *)
(* edges in any selection pass (how robust the selection is).              *)
(***************************************************************************)
EXTENDS Chem, Mixing, Gran

InWindow(pH, lo, hi) == lo \preceq pH /\ pH \preceq hi
Window(pHs, lo, hi) == Map(pHs, LAMBDA p : InWindow(p, lo, hi))
WindowMargin(pHs, lo, hi) ==
  VMin(Map(pHs, LAMBDA p : RMin(RAbs(p \ominus lo), RAbs(p \ominus hi))))

\* ---- per-point quantities ------------------------------------------------
Acid0(P, m, i) == ((P.tm[i] \otimes m) \otimes P.nu) \oslash (P.tm[i] \oplus P.am)
\* Points with everything the residual needs; TT: totals incl. titrant's
Points(P, TT, m) ==
  LET spp == PresentOn(TT, P.K, 3) IN
  Tab(Len(P.tm), LAMBDA i :
    [T |-> Point(TT, i), K |-> Point(P.K, i), spp |-> spp, t |-> P.temp[i],
     acid |-> Acid0(P, m, i), df |-> DilutionFactor(P.tm[i], P.am)])
AlkPt(q, pH) == AlkSp(q.spp, HofPH(pH), q.T, q.K)
\* alkalinity estimate of the undiluted analyte at one point (mol/kg)
Estimate(q, pH) == (AlkPt(q, pH) \oplus q.acid) \oslash q.df

\* ---- EMF modes: least squares in (alkalinity, EMF0) -----------------------
\* residual_i(a, e0) = Alk(pH_i(e0)) - a*df_i + acid_i
FDStep == R("2e-4")
\* normal equations of the linearised problem at (a, e0)
GNGrad(q, emf, a, e0) ==
  LET n == Len(q)
      alkAt(i, e) == AlkSp(q[i].spp, EmfToH(emf[i], e, q[i].t), q[i].T, q[i].K)
      r == Tab(n, LAMBDA i : (alkAt(i, e0) \ominus (a \otimes q[i].df)) \oplus q[i].acid)
      Ja == Tab(n, LAMBDA i : RNeg(q[i].df))
      Je == Tab(n, LAMBDA i : (alkAt(i, e0 \oplus FDStep) \ominus alkAt(i, e0 \ominus FDStep))
                               \oslash (R("2") \otimes FDStep))
  IN  [aa |-> Dot(Ja, Ja), ae |-> Dot(Ja, Je), ee |-> Dot(Je, Je), ga |-> Dot(Ja, r), ge |-> Dot(Je, r)]
GNStep(q, emf, a, e0) ==
  LET g == TLCEval(GNGrad(q, emf, a, e0))
      det == (g.aa \otimes g.ee) \ominus (g.ae \otimes g.ae)
  IN  [da |-> ((g.ae \otimes g.ge) \ominus (g.ee \otimes g.ga)) \oslash det,
       de |-> ((g.ae \otimes g.ga) \ominus (g.aa \otimes g.ge)) \oslash det]
RECURSIVE GN(_, _, _, _, _)
GN(q, emf, a, e0, k) ==
  LET s == TLCEval(GNStep(q, emf, a, e0))
      a2 == a \oplus s.da   e2 == e0 \oplus s.de
      fin == RIsFin(a2) /\ RIsFin(e2)
  IN  IF ~fin \/ k = 0 THEN [a |-> a, e0 |-> e0, ok |-> FALSE]
      ELSE IF RAbs(s.de) \prec R("1e-8") /\ RAbs(s.da) \prec R("1e-12")
      THEN [a |-> a2, e0 |-> e2, ok |-> TRUE]
      ELSE GN(q, emf, a2, e2, k - 1)

\* is (alk, emf0) stationary by the optimiser's own rule?  Then it may be
\* further from the optimum (slow directions)
Stationary(q, emf, used, alk, emf0) ==
  LET idx == Where(used)
      g == TLCEval(GNGrad(At(q, idx), At(emf, idx), alk \otimes Micro, emf0))
  IN  /\ RAbs(g.ga) \prec R("1.05e-8") /\ RAbs(g.ge) \prec R("1.05e-8")
\* the same for some EMF0 (that with no gradient in alkalinity), from the optimum s
StationaryAlk(q, emf, used, alk, s) ==
  LET idx == Where(used)
      g == TLCEval(GNGrad(At(q, idx), At(emf, idx), s.alk \otimes Micro, s.emf0))
      e == s.emf0 \ominus ((g.ae \otimes ((alk \ominus s.alk) \otimes Micro)) \oslash g.ee)
      h == TLCEval(GNGrad(At(q, idx), At(emf, idx), alk \otimes Micro, e))
  IN  Stationary(q, emf, used, alk, e \ominus (h.ga \oslash h.ae))

\* One pass: select with the pH from EMF0 guess e0, then optimise.
Pass(P, q, emf, a0, e0) ==
  LET n == Len(emf)
      pH0 == Tab(n, LAMBDA i : EmfToPH(emf[i], e0, P.temp[i]))
      used == Window(pH0, P.lo, P.hi)
      idx == Where(used)
      \* the optimum does not depend on the start; start the search from e0
      opt == IF Len(idx) < 2 THEN [a |-> NaN, e0 |-> NaN, ok |-> FALSE]
             ELSE GN(At(q, idx), At(emf, idx), a0, e0, 40)
  IN  [used |-> used, a |-> opt.a, e0 |-> opt.e0, ok |-> opt.ok,
       margin |-> WindowMargin(pH0, P.lo, P.hi)]

SolveEmf(P, emf, m) ==
  LET TT == WithTitrant(P.T, P.tm, P.am, m, P.add)
      q == Points(P, TT, m)
      n == Len(emf)
      gg == TLCEval(GranGuess([tm |-> P.tm, emf |-> emf, temp |-> P.temp, am |-> P.am], m, P.nu, P.logic))
      a0 == IF IsStr(P.alk0) THEN gg.alk ELSE R(P.alk0) \otimes Micro
      e0 == IF IsStr(P.emf00) THEN gg.emf0 ELSE R(P.emf00)
      p1 == TLCEval(Pass(P, q, emf, a0, e0))
      p2 == TLCEval(IF P.double /\ p1.ok THEN Pass(P, q, emf, p1.a, p1.e0) ELSE p1)
      pH == Tab(n, LAMBDA i : EmfToPH(emf[i], p2.e0, P.temp[i]))
      est == Tab(n, LAMBDA i : Mega \otimes Estimate(q[i], pH[i]))
      ok == p1.ok /\ p2.ok
      uest == Pick(est, p2.used)
  IN  IF ok
      THEN [ok |-> TRUE, alk |-> Mega \otimes p2.a, emf0 |-> p2.e0, used |-> p2.used, used1 |-> p1.used,
            pH |-> pH, est |-> est, std |-> StdDev(uest, 0), npts |-> Len(uest), gran |-> gg, totals |-> TT,
            margin |-> RMin(p1.margin, p2.margin), margin1 |-> p1.margin,
            gmargin |-> GranMargin(gg.gfunc, P.logic)]
      ELSE [ok |-> FALSE, alk |-> NaN, margin |-> Zero, margin1 |-> p1.margin, used |-> p2.used, used1 |-> p1.used, gran |-> gg, totals |-> TT,
            gmargin |-> GranMargin(gg.gfunc, P.logic)]

\* ---- pH modes ---------------------------------------------------------------
SolvePH(P, m) ==
  LET TT == WithTitrant(P.T, P.tm, P.am, m, P.add)
      q == Points(P, TT, m)
      n == Len(P.tm)
      used == Window(P.meas, P.lo, P.hi)
      est == Tab(n, LAMBDA i : Mega \otimes Estimate(q[i], P.meas[i]))
      u == Pick(est, used)
  IN  [ok |-> Len(u) > 0, alk |-> Mean(u), used |-> used, est |-> est, std |-> StdDev(u, 0),
       npts |-> Len(u), pH |-> P.meas, totals |-> TT,
       margin |-> R("1"), gmargin |-> R("1")]

SolvePHGran(P, m) ==
  LET n == Len(P.tm)
      used == Window(P.meas, P.lo, P.hi)
      g == Tab(n, LAMBDA i : (P.tm[i] \oplus P.am) \otimes HofPH(P.meas[i]))
      fit == LinFit(Pick(P.tm, used), Pick(g, used))
      x0 == RNeg(fit.intercept) \oslash fit.slope
  IN  [ok |-> CountTrue(used) > 1, alk |-> Mega \otimes (((x0 \otimes m) \otimes P.nu) \oslash P.am),
       used |-> used, gfunc |-> g, fit |-> fit, npts |-> CountTrue(used), pH |-> P.meas,
       totals |-> WithTitrant(P.T, P.tm, P.am, m, P.add), margin |-> R("1"), gmargin |-> R("1")]

EmfOf(P) == IF P.mode = "pH_adjust"
            THEN Tab(Len(P.meas), LAMBDA i : PHToEmf(P.meas[i], Zero, P.temp[i]))
            ELSE P.meas
Prob(P) == IF P.mode = "pH_adjust" THEN [P EXCEPT !.emf00 = Zero] ELSE P
Solve(P, m) ==
  CASE P.mode = "emf" -> SolveEmf(P, P.meas, m)
    [] P.mode = "pH_adjust" -> SolveEmf(Prob(P), EmfOf(P), m)
    [] P.mode = "pH" -> SolvePH(P, m)
    [] P.mode = "pH_gran" -> SolvePHGran(P, m)

\* ---- calibration: the molinity at which solving gives the certified value --
\* The solved alkalinity is a nearly straight line in the molinity, with a jump
\* wherever a point enters or leaves the selection.  A search by derivatives is
\* bound to find the root only if it is not at a jump (margin) and no step on the
\* way was taken on one (path).  steady: the selection was the same all the way, so
\* that there is no jump at all.
PathRobust == R("1e-4")
Selected(s) == IF Has(s, "used1") THEN <<s.used1, s.used>> ELSE <<s.used>>
NoRoot(m) == [ok |-> FALSE, steady |-> FALSE, m |-> m, margin |-> Zero, gmargin |-> Zero]
RECURSIVE Secant(_, _, _, _, _, _, _, _, _)
Secant(P, cert, m0, f0, m1, f1, path, sel, k) ==
  LET m2 == m1 \ominus ((f1 \otimes (m1 \ominus m0)) \oslash (f1 \ominus f0))
      s2 == TLCEval(Solve(P, m2))
      f2 == s2.alk \ominus cert
      good == s2.ok /\ RIsFin(f2)
  IN  IF ~good \/ k = 0 THEN NoRoot(m2)
      ELSE IF RAbs(f2) \prec R("1e-7")
      THEN [ok |-> PathRobust \prec path, steady |-> sel = {Selected(s2)}, m |-> m2, margin |-> s2.margin, gmargin |-> s2.gmargin]
      ELSE Secant(P, cert, m1, f1, m2, f2, RMin(path, s2.margin), sel \cup {Selected(s2)}, k - 1)
\* m0: a first guess
Calibrate(P, cert, m0) ==
  LET s0 == TLCEval(Solve(P, m0))
      m1 == (m0 \otimes cert) \oslash s0.alk
      s1 == TLCEval(Solve(P, m1))
      \* the first step is not longer than the guess itself
      far == IF (m0 \oplus m0) \prec m1 THEN TLCEval(Solve(P, m0 \oplus m0)).margin ELSE R("1")
  IN  IF ~s0.ok \/ ~s1.ok \/ ~(PathRobust \prec far) THEN NoRoot(NaN)
      ELSE IF RAbs(s1.alk \ominus cert) \prec R("1e-7")
      THEN [ok |-> PathRobust \prec s0.margin, steady |-> Selected(s0) = Selected(s1), m |-> m1, margin |-> s1.margin, gmargin |-> s1.gmargin]
      ELSE Secant(P, cert, m0, s0.alk \ominus cert, m1, s1.alk \ominus cert, RMin(s0.margin, s1.margin), {Selected(s0), Selected(s1)}, 15)

\* ---- from an effective configuration to a problem ---------------------------
ModeName(c) ==
  LET s == Lower(Opt(c, "solve_mode", "emf")) IN
  CASE s = "emf" -> "emf" [] s = "ph_adjust" -> "pH_adjust" [] s = "ph" -> "pH"
    [] s = "ph_gran" -> "pH_gran" [] OTHER -> "invalid"
\* c: effective options; dat: file contents; env: PyCO2SYS's answers
Problem(c, dat, salinity, env) ==
  LET cv == TLCEval(Convert(c, dat, salinity))
      T0 == AnalyteTotals(c, env)
  IN  [tm |-> cv.tm, temp |-> cv.temp, meas |-> cv.meas, am |-> cv.am,
       T |-> DilutedTotals(T0, cv.tm, cv.am), K |-> env.k,
       add |-> TitrantAdds(c), nu |-> R(Opt(c, "titrant_normality", 1)),
       lo |-> R(Opt(c, "pH_min", 3)), hi |-> R(Opt(c, "pH_max", 4)),
       mode |-> ModeName(c), double |-> Opt(c, "double", TRUE),
       alk0 |-> Opt(c, "alkalinity_init", "none"), emf00 |-> Opt(c, "emf0_init", "none"),
       logic |-> Opt(c, "gran_logic", "v23.7+")]
=============================================================================
