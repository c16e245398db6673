------------------------------ MODULE RunTrace -----------------------------
(***************************************************************************)
(* Clauses about executions of single titrations (see drivers drv_run*.py). *)
(* An event e has: c, S, dat, env, truth and outcomes.                      *)
(***************************************************************************)
EXTENDS Solver, TraceBase

P(e) == Problem(e.c, e.dat, R(e.S), e.env)

\* Tolerances.  The implementation's optimiser stops once the gradient (of half
\* the sum of squares, in mol/kg and mV) is below 1e-8, which is up to about
\* 0.03 umol/kg from the optimum.
TolAlk == R("0.05")     \* umol/kg
TolEmf0 == R("5e-3")    \* mV
\* relative, molinity: what the same distance in alkalinity amounts to
RelM(alk) == LET a == TolAlk \oslash RAbs(R(alk)) IN IF a \prec R("2.5e-5") THEN R("2.5e-5") ELSE a
TolPH == R("1e-4")
\* Between two ways of reaching the same numbers: inputs may differ in the last
\* digit (dataset salts make a round trip through umol/kg), which the optimiser
\* amplifies a little.
SameAlk == R("1e-3")
SameEmf0 == R("1e-4")
SamePH == R("1e-5")
RelSameM == R("1e-6")
\* a selection is robust when no point is within this of the window's edges
Robust == R("5e-4")
RobustCal == R("2e-3")
RobustGran == R("1e-9")

Determined(s) == s.ok /\ Robust \prec s.margin /\ RobustGran \prec s.gmargin

Mode(e) == ModeName(e.c)
\* v is the alkalinity for molinity m, s the specification's solution with it
AlkAgrees(p, m, v, s) ==
  \/ CloseNum(v, s.alk, TolAlk, Zero)
  \/ /\ p.mode \in {"emf", "pH_adjust"} /\ s.ok /\ CloseNum(v, s.alk, R("5"), Zero)
     /\ StationaryAlk(Points(p, s.totals, m), EmfOf(p), s.used, R(v), s)
\* m is the molinity for the certified value, k the specification's calibration
MolAgrees(p, m, cert, k) ==
  \/ CloseNum(m, k.m, Zero, RelM(cert))
  \/ /\ p.mode \in {"emf", "pH_adjust"} /\ CloseNum(m, k.m, Zero, R("2e-3"))
     /\ AlkAgrees(p, R(m), R(cert), TLCEval(Solve(p, R(m))))

\* with EMF0 to be found as well, a reference without alkalinity does not pin the molinity
Alkaline(p, cert) == Zero \prec R(cert) \/ p.mode \in {"pH", "pH_gran"}

\* ---- C01: calibrating and solving are inverse ----------------------------
C01(e) ==
  LET p == P(e)
      k == TLCEval(Calibrate(p, R(e.cert), R("0.1")))
      \* with much noise the jumps are too large to step over; a reference is alkaline
      det == Alkaline(p, e.cert) /\ k.ok /\ RobustCal \prec k.margin /\ RobustGran \prec k.gmargin /\ ((e.scn.noise = "big" \/ e.scn.data \in {"spikes", "tail"}) => k.steady)
      inv == IF e.cal.err # "" \/ e.sol.err # "" THEN {"raised"}
             ELSE Clause("inverse_files", CloseNum(e.sol.alk, R(e.cert), TolAlk, Zero))
               \cup Clause("inverse_core", e.core.err = "" /\ CloseNum(e.core.alk, R(e.cert), TolAlk, Zero))
               \cup Clause("inverse_dataset", e.ds.err = "" /\ CloseNum(e.ds.offset, Zero, TolAlk, Zero))
               \cup Clause("molinity", MolAgrees(p, e.cal.m, e.cert, k))
               \cup Clause("molinity_dataset", MolAgrees(p, e.ds.m, e.cert, k))
               \cup Clause("molinity_core", MolAgrees(p, e.core.m, e.cert, k))
  IN  IF det THEN inv ELSE {"~undetermined"}

\* ---- C02: error-free data -------------------------------------------------
\* the data are ideal: the residual at the truth vanishes at every point
Ideal(p, e) ==
  LET TT == WithTitrant(p.T, p.tm, p.am, R(e.truth.m), p.add)
      q == Points(p, TT, R(e.truth.m))
  IN  \A i \in 1..Len(p.tm) :
        Close(Mega \otimes Estimate(q[i], R(e.truth.pH[i])), R(e.truth.alk), R("1e-5"), Zero)
C02(e) ==
  LET p == P(e)
      \* far above the Gran region, or with an alkalinity to start from that contradicts
      \* the guess of the molinity, a bad guess leaves no point in the window: nothing to
      \* start the search from
      reachable == p.mode \notin {"emf", "pH_adjust"} \/ (e.scn.window \notin {"upper", "all"} /\ e.scn.init = "none")
                   \/ LET k == TLCEval(Calibrate(p, R(e.truth.alk), R("0.1"))) IN k.ok /\ (e.scn.window \in {"upper", "all"} => k.steady)
      enough == CountTrue(Window(e.truth.pH, p.lo \oplus R("0.02"), p.hi \ominus R("0.02"))) >= 4
  IN  IF ~enough THEN {"~too_few_points"}
      ELSE Clause("MACHINERY_data_not_ideal", Ideal(p, e))
        \cup (IF e.sol.err # "" THEN {"raised_solve"}
              ELSE Clause("alkalinity", CloseNum(e.sol.alk, R(e.truth.alk), TolAlk, Zero))
                \cup (IF p.mode \in {"emf", "pH_adjust"}
                      THEN Clause("emf0", Has(e.sol, "emf0") /\ CloseNum(e.sol.emf0, R(e.truth.emf0), TolEmf0, Zero))
                      ELSE {})
                \cup Clause("ds_alkalinity", e.ds.err = "" /\ CloseNum(e.ds.alk, R(e.truth.alk), TolAlk, Zero))
                \cup Clause("pH", CloseVec(e.sol.pH, IF p.mode = "pH" THEN p.meas ELSE e.truth.pH, TolPH, Zero)))
        \cup (IF e.cal.err # "" THEN {"raised_calibrate"} ELSE IF ~reachable \/ ~Alkaline(p, e.truth.alk) THEN {"~guess_too_far"}
              ELSE Clause("molinity", CloseNum(e.cal.m, R(e.truth.m), Zero, RelM(e.truth.alk))))

\* ---- C04: selection and optimum -------------------------------------------
Resid(q, alk, pH) == Tab(Len(q), LAMBDA i : (AlkPt(q[i], pH[i]) \ominus ((alk \otimes Micro) \otimes q[i].df)) \oplus q[i].acid)
DsClauses(o, ds) ==
  Clause("ds_npts", ds.npts = CountTrue(o.used))
  \cup Clause("ds_alkalinity", CloseNum(ds.alk, o.alk, SameAlk, Zero))
  \cup Clause("ds_pH_init", CloseNum(ds.pH_init, o.pH[1], SamePH, Zero))
\* outcome o of an EMF-type solve; s: the specification's
EmfClauses(p, m, o, s, ds) ==
  LET emf == EmfOf(p)
      q == Points(p, s.totals, m)
      pHo == Tab(Len(emf), LAMBDA i : EmfToPH(emf[i], o.emf0, p.temp[i]))
      est == Tab(Len(emf), LAMBDA i : Mega \otimes Estimate(q[i], o.pH[i]))
      res == Pick(Resid(q, o.alk, o.pH), o.used)
      opt == \/ CloseNum(o.alk, s.alk, TolAlk, Zero) /\ CloseNum(o.emf0, s.emf0, TolEmf0, Zero)
             \/ /\ CloseNum(o.alk, s.alk, R("5"), Zero) /\ CloseNum(o.emf0, s.emf0, R("0.2"), Zero)
                /\ Stationary(q, emf, o.used, o.alk, o.emf0)
  IN  Clause("used", o.used = s.used)
      \cup (IF o.used = s.used THEN Clause("optimum", opt) ELSE {})
      \cup Clause("pH", CloseVec(o.pH, pHo, R("1e-9"), Zero))
      \cup Clause("alkalinity_all", CloseVec(o.all, est, R("1e-6"), R("1e-9")))
      \cup Clause("std", CloseNum(o.std, Mega \otimes StdDev(res, 0), R("1e-6"), R("1e-6")))
      \cup DsClauses(o, ds)
      \cup Clause("ds_std", CloseNum(ds.std, StdDev(Pick(o.all, o.used), 0), SameAlk, R("1e-6")))
      \cup Clause("ds_emf0", CloseNum(ds.emf0, o.emf0, SameEmf0, Zero))
PHClauses(p, o, s, ds) ==
  Clause("used", o.used = s.used)
  \cup Clause("mean", CloseNum(o.alk, s.alk, R("1e-6"), R("1e-9")))
  \cup Clause("pH", CloseVec(o.pH, s.pH, R("1e-12"), Zero))
  \cup Clause("alkalinity_all", CloseVec(o.all, s.est, R("1e-6"), R("1e-9")))
  \cup Clause("std", CloseNum(o.std, s.std, R("1e-6"), R("1e-8")))
  \cup DsClauses(o, ds)
  \cup Clause("ds_std", CloseNum(ds.std, s.std, R("1e-6"), R("1e-8")))
  \cup Clause("ds_emf0_null", RIsNaN(ds.emf0))
PHGranClauses(p, o, s, ds) ==
  Clause("used", o.used = s.used)
  \cup Clause("intercept", CloseNum(o.alk, s.alk, R("1e-6"), R("1e-9")))
  \cup Clause("pH", CloseVec(o.pH, s.pH, R("1e-12"), Zero))
  \cup Clause("gfunc", CloseVec(o.gfunc, s.gfunc, Zero, R("1e-9")))
  \cup DsClauses(o, ds)
  \cup Clause("ds_emf0_null", RIsNaN(ds.emf0))
C04(e) ==
  LET p == P(e)
      m == R(e.m)
      s == TLCEval(Solve(p, m))
      o == e.sol
  IN  IF Has(e, "nofit")      \* only the selection is under test
      THEN IF o.err # "" THEN {"raised"} ELSE Clause("used", o.used = s.used1)
      ELSE IF ~Determined(s) THEN {"~undetermined"}
      ELSE IF o.err # "" \/ e.ds.err # "" THEN {"raised"}
      ELSE Clause("core", e.core.err = "" /\ CloseNum(e.core.alk, o.alk, SameAlk, Zero))
           \cup (CASE p.mode \in {"emf", "pH_adjust"} -> EmfClauses(p, m, o, s, e.ds)
                   [] p.mode = "pH" -> PHClauses(p, o, s, e.ds)
                   [] p.mode = "pH_gran" -> PHGranClauses(p, o, s, e.ds))

\* ---- C09: amounts to masses ------------------------------------------------
RelC == R("1e-11")
ConvClauses(o, cv) ==
  IF o.err # "" THEN {"raised"}
  ELSE Clause("titrant_mass", CloseVec(o.tm, cv.tm, Zero, RelC))
    \cup Clause("analyte_mass", CloseNum(o.am, cv.am, Zero, RelC))
    \cup Clause("temperature", CloseVec(o.temp, cv.temp, Zero, Zero))
    \cup Clause("measurement", CloseVec(o.meas, cv.meas, Zero, Zero))
C09(e) ==
  IF Has(e, "which")
  THEN LET rho(x, y) == CASE e.which = "sw" -> RhoSeawater(x, y)
                          [] e.which = "hcl" -> RhoHClNaCl(x, y)
                          [] e.which = "h2so4" -> RhoH2SO4(x)
           one == CASE e.which = "sw" -> rho(e.x[1], e.y[1])
                    [] e.which = "hcl" -> RhoHClNaCl(R("0.1"), R("0.6"))
                    [] OTHER -> RhoH2SO4(R("0.1"))
       IN  Clause("density", CloseVec(e.got, Tab(Len(e.x), LAMBDA i : rho(e.x[i], e.y[i])), Zero, R("1e-12")))
           \cup Clause("density_scalar_or_default", CloseNum(e.one, one, Zero, R("1e-12")))
  ELSE IF UnitsValid(e.c)
  THEN LET cv == Convert(e.c, e.dat, R(e.S)) IN
       ConvClauses(e.conv, cv)
       \cup (IF Has(e, "sol") THEN {Cat("solve_", x) : x \in ConvClauses(e.sol, cv)} ELSE {})
       \cup (IF Has(e, "inputs_kept") THEN Clause("inputs_changed", e.inputs_kept) ELSE {})
  ELSE Clause("not_refused", e.conv.err # "")

\* ---- C10: totals and constants -----------------------------------------------
RelT == R("1e-9")
\* every stated total exactly as expected and no others
TotalsClauses(o, T) ==
  Clause("totals_present", DOMAIN o.totals = DOMAIN T)
  \cup UNION {Clause(Cat("total:", f), Has(o.totals, f) /\ CloseVec(o.totals[f], T[f], Zero, RelT)) : f \in DOMAIN T}
\* every constant an acid-base family of the mixture needs
KUsed == {"k_ammonia", "k_bisulfate", "k_borate", "k_carbonic_1", "k_carbonic_2", "k_fluoride",
          "k_phosphoric_1", "k_phosphoric_2", "k_phosphoric_3", "k_silicate", "k_sulfide", "k_water"}
KsClauses(o, c, K) ==
  UNION {Clause(Cat("constant:", f), Has(o.ks, f) /\ CloseVec(o.ks[f], K[f], Zero, RelT)) :
           f \in KUsed \cup ({"k_alpha", "k_beta"} \cap DOMAIN c)}
SaltOf(c, env, f) == IF Has(c, f) THEN R(c[f]) ELSE env[f]
C10(e) ==
  LET cv == Convert(e.c, e.dat, R(e.S))
      T == DilutedTotals(AnalyteTotals(e.c, e.env), cv.tm, cv.am)
      tk(o) == IF o.err # "" THEN {"raised"} ELSE TotalsClauses(o, T) \cup KsClauses(o, e.c, e.env.k)
  IN  tk(e.tk)
      \cup (IF e.sol.err = "skipped" THEN {} ELSE {Cat("solve_", x) : x \in tk(e.sol)})
      \cup (IF e.ds.err # "" THEN {"ds_raised"}
            ELSE UNION {Clause(Cat("ds_", f), CloseNum(e.ds[f], SaltOf(e.c, e.env, f), Zero, RelT)) :
                          f \in {"total_borate", "total_fluoride", "total_sulfate"}})

\* ---- C11: titrant-borne solutes ----------------------------------------------
DiluteExempt == {"Sal"}
\* "as they were", up to the rounding of adding and taking away the titrant's
\* part; a solute the analyte lacks may be left there at zero
Kept(a, b) ==
  /\ \A f \in DOMAIN a : Has(b, f) /\ CloseVec(b[f], a[f], R("1e-12"), RelT)
  /\ \A f \in (DOMAIN b) \ (DOMAIN a) : CloseVec(b[f], Tab(Len(b[f]), LAMBDA i : Zero), R("1e-12"), Zero)
C11(e) ==
  CASE e.which = "add" ->
        LET W == WithTitrant(e.base, e.tm, e.am, R(e.m), e.adds)
        IN  TotalsClauses([totals |-> e.got], W)
    [] e.which \in {"h2so4", "plain", "pyco2", "plain_pyco2"} ->
        LET n == Len(e.tm)
            df == Tab(n, LAMBDA i : DilutionFactor(e.tm[i], e.am))
            sulf == IF e.which = "h2so4" THEN "total_sulfate" ELSE IF e.which = "pyco2" THEN "TSO4" ELSE "none"
            exp(f) == Tab(n, LAMBDA i :
                        IF f \in DiluteExempt THEN R(e.base[f])
                        ELSE (R(e.base[f]) \otimes df[i]) \oplus
                             (IF f = sulf THEN (e.tm[i] \otimes e.m) \oslash (e.tm[i] \oplus e.am) ELSE Zero))
        IN  Clause("arguments_changed", e.kept)
            \cup Clause("keys", DOMAIN e.got = DOMAIN e.base)
            \cup UNION {Clause(Cat("balance:", f), Has(e.got, f) /\ CloseVec(e.got[f], exp(f), Zero, RelT)) : f \in DOMAIN e.base}
    [] OTHER ->
        LET p == P(e)
            m == R(e.m)
            s == TLCEval(Solve(p, m))
            k == TLCEval(Calibrate(p, R(e.cert), R("0.1")))
            det == Alkaline(p, e.cert) /\ k.ok /\ RobustCal \prec k.margin /\ RobustGran \prec k.gmargin
        IN  (IF e.sol.err # "" THEN {"raised"}
             ELSE TotalsClauses(e.sol, s.totals)
               \cup (IF Determined(s) THEN Clause("alkalinity", AlkAgrees(p, m, e.sol.alk, s)) ELSE {"~undetermined"}))
            \cup (IF e.cal.err # "" THEN {"calibrate_raised"}
                  ELSE Clause("caller_totals_changed", Kept(e.cal.before, e.cal.after))
                    \cup Clause("caller_totals_changed_by_failed_calibration", Kept(e.cal.before, e.cal.after2))
                    \cup Clause("repeat_differs", CloseNum(e.cal.m2, R(e.cal.m1), Zero, RelSameM))
                    \cup (IF det THEN Clause("molinity", MolAgrees(p, e.cal.m1, e.cert, k)) ELSE {"~undetermined_calibration"}))

\* ---- C18: Gran -----------------------------------------------------------------
RelG == R("1e-9")
TolE == R("1e-6")
GranClauses(o, g, pre) ==
  Clause(Cat(pre, "function"), CloseVec(o.func, g.gfunc, Zero, RelG))
  \cup Clause(Cat(pre, "used"), o.used = g.used)
  \cup Clause(Cat(pre, "alkalinity"), CloseNum(o.alk, g.alk, Zero, RelG))
  \cup Clause(Cat(pre, "emf0s"), CloseVec(o.emf0s, g.emf0s, TolE, RelG))
  \cup Clause(Cat(pre, "emf0"), CloseNum(o.emf0, g.emf0, TolE, RelG))
  \cup Clause(Cat(pre, "pH"), CloseVec(o.pH, g.pH, TolE, RelG))
C18(e) ==
  LET p == Prob(P(e))
      emf == EmfOf(p)
      \* "nonsense" logic is refused
      valid == p.logic \in {"v23.7+", "legacy"}
      g == TLCEval(GranGuess([tm |-> p.tm, emf |-> emf, temp |-> p.temp, am |-> p.am], R(e.m), p.nu, p.logic))
      det == RobustGran \prec GranMargin(g.gfunc, p.logic) /\ CountTrue(g.used) > 1
  IN  IF ~valid THEN Clause("not_refused", e.g.err # "" /\ e.sol.err # "")
      ELSE IF ~det THEN {"~undetermined"}
      ELSE (IF e.g.err # "" THEN {"raised"}
            ELSE GranClauses(e.g, g, "")
              \cup Clause("emf0s_reported", CloseVec(e.g.emf0s2, g.emf0s, TolE, RelG))
              \cup Clause("alkalinity_reported", CloseNum(e.g.alk1, g.alk, Zero, RelG))
              \cup Clause("intercept", CloseNum(e.g.x0, g.x0, Zero, RelG) /\ CloseNum(e.g.x02, g.x0, Zero, RelG)))
           \cup (IF e.sol.err # "" THEN {"~solve_failed"}
                 ELSE GranClauses([func |-> e.sol.gran_func, used |-> e.sol.gran_used, alk |-> e.sol.gran_alk,
                                   emf0s |-> e.sol.gran_emf0s, emf0 |-> e.sol.gran_emf0, pH |-> e.sol.gran_pH], g, "solve_")
                   \cup (IF e.ds.err # "" THEN {"ds_raised"}
                         ELSE Clause("ds_gran_alkalinity", CloseNum(e.ds.alk, Mega \otimes g.alk, Zero, RelG))
                           \cup Clause("ds_gran_emf0", CloseNum(e.ds.emf0, g.emf0, TolE, RelG))))

\* ---- C19: one answer ---------------------------------------------------------------
\* refused: files raises; the Dataset interface reports and leaves the row null
TolAs == R("0.01")
C19(e) ==
  IF e.bad
  THEN Clause("files_solve_accepts", e.sol["files"].err # "")
       \cup Clause("files_calibrate_accepts", e.cal["files"].err # "")
       \cup UNION {Clause(Cat("accepted:", f), e.sol[f].err # "" \/ RIsNaN(e.sol[f].v)) : f \in DOMAIN e.sol}
       \cup UNION {Clause(Cat("accepted_calibrate:", f), e.cal[f].err # "" \/ RIsNaN(e.cal[f].v)) : f \in DOMAIN e.cal}
  ELSE
  LET p == P(e)
      s == TLCEval(Solve(p, R(e.m)))
      k == TLCEval(Calibrate(p, R(e.cert), R("0.1")))
      ref == e.sol["files"].v
      refm == e.cal["files"].v
      detk == Alkaline(p, e.cert) /\ k.ok /\ RobustCal \prec k.margin /\ RobustGran \prec k.gmargin
  IN  UNION {Clause(Cat("raised:", f), e.sol[f].err = "") : f \in DOMAIN e.sol}
      \cup UNION {Clause(Cat("raised_calibrate:", f), e.cal[f].err = "") : f \in DOMAIN e.cal}
      \cup UNION {Clause(Cat("differs:", f), CloseNum(e.sol[f].v, ref, IF f = "as_emf" THEN TolAlk ELSE SameAlk, Zero)) :
                    f \in {x \in DOMAIN e.sol : e.sol[x].err = ""}}
      \* points, standard deviation, EMF0, Gran estimates, first pH and temperature
      \cup UNION {Clause(Cat("results_differ:", f), CloseVec(e.sol[f].r, e.sol["files"].r, IF f = "as_emf" THEN TolAs ELSE SameAlk, R("1e-9"))) :
                    f \in {x \in DOMAIN e.sol : e.sol[x].err = ""}}
      \cup UNION {Clause(Cat("differs_calibrate:", f), CloseNum(e.cal[f].v, refm, Zero, RelSameM)) :
                    f \in {x \in DOMAIN e.cal : e.cal[x].err = ""}}
      \cup (IF Determined(s) THEN Clause("wrong", AlkAgrees(p, R(e.m), ref, s)) ELSE {"~undetermined"})
      \cup (IF detk THEN Clause("wrong_calibrate", MolAgrees(p, refm, e.cert, k)) ELSE {"~undetermined_calibration"})
=============================================================================
