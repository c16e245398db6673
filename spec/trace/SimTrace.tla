------------------------------ MODULE SimTrace -----------------------------
(* Simulated titrations and DIC-loss models (C16).                          *)
EXTENDS Simulate, TraceBase

Rel == R("1e-9")
SimClauses(e) ==
  LET a == SimEff(e.given)
      o == e.out
      n == Len(o.tm)
      temps == IF IsSeq(a.temperature) THEN a.temperature ELSE Tab(n, LAMBDA i : R(a.temperature))
      alk == Map(o.tm, LAMBDA x : AlkAt(a, x))
      dic == TLCEval(SimDic(a, o.tm, e.env.fCO2))
      df == Map(o.tm, LAMBDA x : DilutionFactor(x, R(a.analyte_mass)))
      mach == Clause("MACHINERY_alkalinity", CloseVec(e.env.alk, alk, R("1e-7"), Rel))
              \cup Clause("MACHINERY_dic", CloseVec(e.env.dic, dic, R("1e-7"), Rel))
              \cup Clause("MACHINERY_args", DOMAIN e.args = DOMAIN a /\ \A k \in DOMAIN a : IF IsSeq(a[k]) THEN CloseVec(e.args[k], a[k], Zero, Zero) ELSE R(e.args[k]) = R(a[k]))
      emf == Tab(n, LAMBDA i : PHToEmf(e.env.pH[i], R(a.emf0), temps[i]))
      \* the solution's alkalinity at the returned EMF, by the definition
      h == Tab(n, LAMBDA i : EmfToH(o.emf[i], R(a.emf0), temps[i]))
      T == o.T
      Tk == [f \in {x \in DOMAIN T : x \notin {"total_alpha", "total_beta", "total_calcium"} \/ (x # "total_calcium" /\ Has(a, x))} |-> T[f]]
      own == Tab(n, LAMBDA i : Mega \otimes Alk(h[i], Point(Tk, i), Point(o.K, i), 3))
  IN  IF e.err # "" THEN {"raised"}
      ELSE IF ~PointsOK(o.tm, a) THEN {"points"}
      ELSE IF Len(e.env.alk) # n THEN {"number_of_points"}
      ELSE mach
        \cup Clause("temperature", CloseVec(o.temp, temps, Zero, R("1e-12")))
        \cup Clause("analyte_mass", CloseNum(o.am, R(a.analyte_mass), Zero, Zero))
        \cup Clause("emf", CloseVec(o.emf, emf, R("1e-4"), Zero))
        \cup Clause("dic", Has(T, "dic") /\ CloseVec(T["dic"], VScale(dic, Micro), R("1e-12"), R("1e-8")))
        \cup UNION {Clause(Cat("total:", f), Has(T, f) /\ CloseVec(T[f], VScale(df, UndilutedTotal(a, e.env.salts, f) \otimes Micro), R("1e-15"), Rel)) : f \in SimTotals}
        \cup UNION {Clause(Cat("constant:", f), Has(o.K, f) /\ CloseVec(o.K[f], e.env.K[f], Zero, R("1e-8"))) : f \in DOMAIN e.env.K}
        \cup Clause("mass_balance", \A i \in 1..n : Close(own[i], alk[i], R("1e-3"), Zero))
        \cup Clause("inputs_changed", e.kept)

FunClauses(e) ==
  LET q == e.q IN
  IF e.err # "" THEN {"raised"}
  ELSE CASE e.fn = "fitted" ->
             Clause("fitted", CloseVec(e.dic, Fitted(q.k, q.tm, q.df, q.dic0 \otimes Mega, q.am, q.step), R("1e-9"), R("1e-10")))
             \cup Clause("inputs_changed", e.kept)
         [] e.fn = "fco2" ->
             Clause("fCO2", CloseVec(e.got, Tab(Len(q.pH), LAMBDA i : FCO2(q.dic[i], q.pH[i], q.k0[i], q.k1[i], q.k2[i])), Zero, R("1e-11")))
         [] e.fn = "future" ->
             LET w == TLCEval(Future(q.k, q.f, q.df0, q.dic0, q.at, q.am, q.step, q.air)) IN
             Clause("future_dic", CloseVec(e.dic, w.dic, R("1e-9"), R("1e-10")))
             \cup Clause("future_fCO2", CloseVec(e.df, w.df, R("1e-6"), R("1e-9")))
             \cup Clause("inputs_changed", e.kept)
LossClauses(e) ==
  LET q == e.q
      g == e.hi.tm
      step == FineStep(q.tm)
      top == VMax(q.tm)
      gridok == /\ Len(g) > 0
                /\ \A i \in 1..Len(g) : CloseNum(g[i], R(i - 1) \otimes step, R("1e-15"), R("1e-9"))
                /\ g[Len(g)] \prec (top \oplus (step \otimes R("1e-6")))
                /\ (top \ominus (step \otimes R("1e-6"))) \preceq (g[Len(g)] \oplus step)
      w == TLCEval(HiRes(q, g, e.k))
      near == \E i \in 1..Len(g) : CloseNum(w.pH[i], q.split, R("1e-9"), Zero)
      dscale == R("1e-6")
      one == LET d == Pchip(g, w.dic, q.tm)
                 f == Pchip(g, w.df, q.tm)
             IN  Clause("loss_dic", CloseVec(e.dicm, VScale(d, Micro), R("1e-11"), R("1e-8")))
                 \cup Clause("loss_fCO2", CloseVec(e.fm, VAddS(f, q.air), R("1e-4"), R("1e-7")))
  IN  IF e.err # "" THEN {"raised"}
      ELSE IF ~gridok THEN {"grid"}
      ELSE Clause("label_fitted", e.label = [i \in 1..Len(q.tm) |-> q.split \preceq q.pH[i]])
        \cup Clause("same_rate", e.k = e.k2)
        \cup Clause("inputs_changed", e.kept)
        \cup (IF near \/ w.nfit = 0 \/ w.nfit = Len(g) THEN {"~split at a grid point"}
              ELSE Clause("hires_pH", CloseVec(e.hi.pH, w.pH, R("1e-9"), Zero))
                \cup Clause("rate", CloseNum(e.k, w.rate, R("1e-4"), R("2e-4")))
                \cup Clause("hires_dic", CloseVec(e.hi.dic, w.dic, dscale, R("1e-8")))
                \cup Clause("hires_fCO2", CloseVec(e.hi.df, w.df, R("1e-4"), R("1e-7")))
                \cup one)
\* the simulator that returns a solved Titration
TitClauses(e) == IF e.err # "" THEN {"titration_raised"} ELSE Clause("titration_alkalinity", CloseNum(e.alk, e.want, R("0.1"), Zero))
C16(e) ==
  CASE e.kind = "sim" -> SimClauses(e)
    [] e.kind = "fun" -> FunClauses(e)
    [] e.kind = "loss" -> LossClauses(e)
    [] e.kind = "known" -> TitClauses(e)
=============================================================================
