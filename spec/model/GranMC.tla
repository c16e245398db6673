------------------------------- MODULE GranMC ------------------------------
(* The Gran estimates on titrations of strong acid by strong base: data for *)
(* which the Gran function is exactly a straight line past the end point.   *)
EXTENDS Gran
VARIABLES alk, mol, nu, am, t, e0, logic
vars == <<alk, mol, nu, am, t, e0, logic>>
Init == alk = 0 /\ mol \in {50, 100, 250} /\ nu \in {95, 100, 200} /\ am \in {50, 100} /\ t \in {5, 25} /\ e0 \in {300, 600} /\ logic \in {"default", "legacy"}
Next == alk = 0 /\ alk' \in {500, 2300, 5000} /\ UNCHANGED <<mol, nu, am, t, e0, logic>>
Spec == Init /\ [][Next]_vars
Ready == alk # 0
Am == R(am) \otimes R("1e-3")
M == R(mol) \otimes R("1e-3")
Nu == R(nu) \oslash R("100")
Alk == R(alk) \otimes R("1e-6")
E0 == R(e0)
T == R(t)
End == (Am \otimes Alk) \oslash (M \otimes Nu)        \* titrant at the end point
tm == Tab(14, LAMBDA i : End \otimes (R("1.003") \oplus (R(i) \oslash R("20"))))
H(i) == (((tm[i] \otimes M) \otimes Nu) \ominus (Am \otimes Alk)) \oslash (tm[i] \oplus Am)
emf == Tab(14, LAMBDA i : E0 \oplus (Slope(T) \otimes RLn(H(i))))
P == [tm |-> tm, emf |-> emf, temp |-> Tab(14, LAMBDA i : T), am |-> Am]
g == TLCEval(GranGuess(P, M, Nu, logic))
Near(a, b) == Close(a, b, Zero, R("1e-10"))
\* the end point, the alkalinity and every EMF0 estimate are exact
Exact == Ready => LET q == g IN
  /\ Near(q.x0, End) /\ Near(q.alk, Alk)
  /\ \A i \in 1..14 : Close(q.emf0s[i], E0, R("1e-6"), Zero)
  /\ Close(q.emf0, E0, R("1e-6"), Zero)
  /\ \A i \in 1..14 : Close(q.pH[i], RNeg(RLog10(H(i))), R("1e-7"), Zero)
\* the points used: everything from the first large value (legacy: between 10 % and 90 %)
Used == Ready => LET q == g mx == VMax(q.gfunc) IN
  IF logic = "legacy" THEN \A i \in 1..14 : q.used[i] <=> ((R("0.1") \otimes mx) \prec q.gfunc[i] /\ q.gfunc[i] \prec (R("0.9") \otimes mx))
  ELSE /\ q.used[14] /\ \A i \in 1..13 : q.used[i] => q.used[i + 1]
\* shifting the EMF scale moves EMF0 and nothing else; molinity and normality act as a product
Shift == Ready => LET s == TLCEval(GranGuess([P EXCEPT !.emf = VAddS(emf, R("25"))], M, Nu, logic)) q == g IN
  Near(s.alk, q.alk) /\ s.used = q.used /\ Close(s.emf0, q.emf0 \oplus R("25"), R("1e-6"), Zero)
Product == Ready => LET s == TLCEval(GranGuess(P, M \otimes Nu, One, logic)) IN Near(s.alk, g.alk) /\ Close(s.emf0, g.emf0, R("1e-6"), Zero)
Inv == Exact /\ Used /\ Shift /\ Product
=============================================================================
