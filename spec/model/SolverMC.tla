------------------------------ MODULE SolverMC -----------------------------
(***************************************************************************)
(* The specification of solving and calibrating against its own purpose:   *)
(* titrations made here from a known alkalinity, molinity and EMF0 (the pH *)
(* of every point by bisection of the alkalinity equation) must be solved  *)
(* and calibrated to just those, in every mode, window, normality and      *)
(* number of passes; calibrating is the inverse of solving for any         *)
(* certified value; points outside the window have no influence; and the   *)
(* order of the points has none.                                           *)
(***************************************************************************)
EXTENDS Solver, FiniteSets
VARIABLES stage, mode, win, nu, double, adds, off
vars == <<stage, mode, win, nu, double, adds, off>>

n == 14
am == R("0.1")
Alk0 == R("2300e-6")
M0 == R("0.1")
E00 == R("610")
Tm == Tab(n, LAMBDA i : R(i + 9) \otimes R("1.7e-4"))
Temp == Tab(n, LAMBDA i : R("20") \oplus (R(i) \otimes R("0.1")))
KOne == [k_water |-> R("5.7e-14"), k_carbonic_1 |-> R("1.4e-6"), k_carbonic_2 |-> R("1.1e-9"), k_borate |-> R("2.4e-9"),
         k_phosphoric_1 |-> R("2.4e-2"), k_phosphoric_2 |-> R("1.2e-6"), k_phosphoric_3 |-> R("1.6e-9"),
         k_fluoride |-> R("2.4e-3"), k_bisulfate |-> R("1e-1")]
KK == [f \in DOMAIN KOne |-> Tab(n, LAMBDA i : KOne[f])]
T00 == [dic |-> R("3e-4"), total_borate |-> R("4e-4"), total_fluoride |-> R("6.8e-5"), total_sulfate |-> R("2.8e-2")]
TD == DilutedTotals(T00, Tm, am)
Adds == IF adds THEN "total_sulfate" :> One ELSE <<>>
Nu == R(nu) \oslash R("10")
Lo == CASE win = "default" -> R("3") [] win = "low" -> R("2.8") [] win = "high" -> R("3.2")
Hi == CASE win = "default" -> R("4") [] win = "low" -> R("3.4") [] win = "high" -> R("4.5")
\* the molinity that, with this normality, makes the data of molinity M0 and normality 1
M1 == M0 \oslash Nu
\* pH of a point by bisection (alkalinity increases with pH)
RECURSIVE Bisect(_, _, _, _, _)
Bisect(q, want, a, b, k) ==
  LET mid == (a \oplus b) \oslash R("2") IN
  IF k = 0 THEN mid ELSE IF AlkPt(q, mid) \prec want THEN Bisect(q, want, mid, b, k - 1) ELSE Bisect(q, want, a, mid, k - 1)
Base0 == [tm |-> Tm, temp |-> Temp, meas |-> Tm, am |-> am, T |-> TD, K |-> KK, add |-> Adds, nu |-> Nu, lo |-> Lo, hi |-> Hi,
          mode |-> mode, double |-> double, alk0 |-> "none", emf00 |-> "none", logic |-> "v23.7+"]
PHs == LET q == Points(Base0, WithTitrant(TD, Tm, am, M1, Adds), M1) IN
       Tab(n, LAMBDA i : Bisect(q[i], (Alk0 \otimes q[i].df) \ominus q[i].acid, R("1"), R("10"), 60))
\* an error in pH that alternates, in units of 0.01
Err(i) == (R(off) \otimes R("0.01")) \otimes R(IF i % 2 = 0 THEN 1 ELSE -1)
Meas(pH) == IF mode = "emf" THEN Tab(n, LAMBDA i : PHToEmf(pH[i] \oplus Err(i), E00, Temp[i])) ELSE Tab(n, LAMBDA i : pH[i] \oplus Err(i))
Prb(pH) == [Base0 EXCEPT !.meas = Meas(pH)]

Init == stage = 0 /\ mode \in {"emf", "pH_adjust", "pH", "pH_gran"} /\ win \in {"default", "low", "high"} /\ nu = 10 /\ double = TRUE /\ adds = FALSE /\ off = 0
Next == stage = 0 /\ stage' = 1 /\ nu' \in {5, 10, 20} /\ double' \in BOOLEAN /\ adds' \in BOOLEAN /\ off' \in {0, 1} /\ UNCHANGED <<mode, win>>
Spec == Init /\ [][Next]_vars

Rev(s) == Tab(n, LAMBDA i : s[n + 1 - i])
Law(pH) ==
  LET p == TLCEval(Prb(pH))
      s == TLCEval(Solve(p, M1))
      det == s.ok /\ R("1e-3") \prec s.margin /\ R("1e-6") \prec s.gmargin
      cert == R("2310")
      k == TLCEval(Calibrate(p, cert, R("0.1")))
      kdet == k.ok /\ R("2e-3") \prec k.margin
      \* the points outside both the windows moved further out
      outside == Tab(n, LAMBDA i : ~s.used[i] /\ ~InWindow(pH[i], Lo \ominus R("0.3"), Hi \oplus R("0.3")))
      away == [p EXCEPT !.meas = Tab(n, LAMBDA i : IF outside[i] THEN (IF mode = "emf" THEN (IF pH[i] \prec Lo THEN p.meas[i] \oplus R("3") ELSE p.meas[i] \ominus R("3"))
                                                                     ELSE (IF pH[i] \prec Lo THEN p.meas[i] \ominus R("0.05") ELSE p.meas[i] \oplus R("0.05")))
                                                    ELSE p.meas[i])]
      s2 == TLCEval(Solve(away, M1))
      det2 == s2.ok /\ s2.used = s.used /\ R("1e-3") \prec s2.margin
      back == TLCEval(Solve([p EXCEPT !.tm = Rev(@), !.temp = Rev(@), !.meas = Rev(@),
                                      !.T = [f \in DOMAIN TD |-> Rev(TD[f])], !.emf00 = IF mode = "emf" THEN s.gran.emf0 ELSE "none",
                                      !.alk0 = IF mode = "emf" THEN s.gran.alk \otimes Mega ELSE "none"], M1))
  IN  \* error-free data give the truth (the Gran function is only an approximation to it)
      /\ (det /\ off = 0 /\ mode # "pH_gran") => Close(s.alk, R("2300"), R("1e-5"), Zero)
      /\ (det /\ off = 0 /\ mode = "emf") => Close(s.emf0, E00, R("1e-5"), Zero)
      /\ (det /\ off = 0 /\ mode = "pH_adjust") => Close(s.emf0, Zero, R("1e-5"), Zero)
      /\ det => CountTrue(s.used) > 1
      \* solving undoes calibrating
      /\ kdet => Close(Solve(p, k.m).alk, cert, R("1e-6"), Zero)
      \* twice the acid strength, half the molinity
      /\ kdet => LET k2 == TLCEval(Calibrate([p EXCEPT !.nu = Nu \otimes R("2")], cert, R("0.1")))
                 IN  (k2.ok /\ R("2e-3") \prec k2.margin /\ ~adds) => Close(k2.m \otimes R("2"), k.m, Zero, R("1e-8"))
      \* unused points
      /\ (det /\ det2) => Close(s2.alk, s.alk, R("1e-6"), Zero)
      \* order of the points
      /\ (det /\ back.ok /\ R("1e-3") \prec back.margin) => Close(back.alk, s.alk, R("1e-6"), Zero) /\ back.used = Tab(n, LAMBDA i : s.used[n + 1 - i])
Inv == stage = 1 => Law(TLCEval(PHs))
=============================================================================
