------------------------------- MODULE LossMC ------------------------------
(* Laws of the DIC-loss recurrence over rates, masses, steps and air.       *)
EXTENDS Loss
VARIABLES k, am, step, n, air
vars == <<k, am, step, n, air>>
Init == k = -1 /\ am \in {50, 100, 250} /\ step \in {1, 15, 200} /\ n \in 2..6 /\ air \in {0, 450, 3000}
Next == k = -1 /\ k' \in {0, 1, 7, 40, 300} /\ UNCHANGED <<am, step, n, air>>
Spec == Init /\ [][Next]_vars
Near(a, b) == Close(a, b, R("1e-13"), R("1e-9"))
Ready == k >= 0
K == R(k) \otimes R("1e-3")
Am == R(am) \otimes Milli
St == R(step) \otimes R("1e-6")
Dic0 == R("2000")
tm == Tab(n, LAMBDA i : R(i - 1) \otimes St)
df == Tab(n, LAMBDA i : (R(400 + 900 * (i - 1) - 40 * (i * i)) \ominus R(air)))
y == TLCEval(Fitted(K, tm, df, Dic0, Am, St))
y0 == TLCEval(Fitted(Zero, tm, df, Dic0, Am, St))
Mass(i) == Am \oplus tm[i]
\* no loss: dilution only, the amount of DIC is conserved
Conserved == Ready => \A i \in 1..n : Near(y0[i] \otimes Mass(i), Dic0 \otimes Am) /\ Near(y0[i], Dic0 \otimes DilutionFactor(tm[i], Am))
\* the amount lost in a step is the rate times the fCO2 difference at its start
Lost == Ready => \A i \in 1..(n - 1) :
  Close((y[i] \otimes Mass(i)) \ominus (y[i + 1] \otimes Mass(i + 1)), ((K \otimes df[i]) \otimes St) \otimes Mass(i + 1), R("1e-10"), R("1e-9"))
\* CO2 goes where there is less of it
Sign == Ready => \A i \in 1..(n - 1) : LET d == (y[i] \otimes DilutionFactor(St, Mass(i))) \ominus y[i + 1] IN
  k = 0 \/ RAbs(df[i]) \prec R("1e-6") \/ ((Zero \prec df[i]) <=> (Zero \prec d))
\* the least-squares rate of data that follow the recurrence is their rate
Recovered == Ready => Close(RateOf(tm, df, Dic0, Am, St, y), K, R("1e-6"), R("1e-6"))
\* fCO2: more where the pH is lower, proportional to DIC, all DIC is CO2 in strong acid
FC == LET k0 == R("0.03") k1 == R("1e-6") k2 == R("1e-9") g(p) == FCO2(Dic0, R(p), k0, k1, k2) IN
  /\ g("8") \prec g("6") /\ g("6") \prec g("4") /\ Close(g("1"), Dic0 \oslash k0, Zero, R("1e-4"))
  /\ Near(FCO2(Dic0 \oplus Dic0, R("7"), k0, k1, k2), g("7") \oplus g("7"))
Inv == Conserved /\ Lost /\ Sign /\ Recovered /\ FC
=============================================================================
