-------------------------------- MODULE Loss -------------------------------
(***************************************************************************)
(* DIC lost to the air during a titration: between two additions of size   *)
(* step the mixture is diluted and loses k * (fCO2 - fCO2_air) * step.     *)
(***************************************************************************)
EXTENDS Mixing, Pchip, Chem

StepDic(dic, k, dfCO2, step, mass) == (dic \otimes DilutionFactor(step, mass)) \ominus ((k \otimes dfCO2) \otimes step)
\* fCO2 of CO2 dissolved at a given pH
FCO2(dic, pH, k0, k1, k2) ==
  LET h == HofPH(pH) IN
  (dic \oslash ((One \oplus (k1 \oslash h)) \oplus ((k1 \otimes k2) \oslash Sq(h)))) \oslash k0

\* known differences in fCO2: first value, then one step after another
RECURSIVE FittedFrom(_, _, _, _, _, _)
FittedFrom(k, tm, df, am, step, acc) ==
  LET i == Len(acc) IN
  IF i >= Len(df) THEN acc
  ELSE FittedFrom(k, tm, df, am, step, Append(acc, StepDic(acc[i], k, df[i], step, am \oplus tm[i])))
Fitted(k, tm, df, dic0, am, step) == IF Len(df) = 0 THEN <<>> ELSE FittedFrom(k, tm, df, am, step, <<dic0>>)

\* forecast: fCO2 follows from the forecast DIC and the given pH.  The first
\* point continues from (dic0, df0) one step before it, with the chemistry given
RECURSIVE FutureFrom(_, _, _, _, _, _, _)
FutureFrom(k, f, am, step, air, dic, df) ==
  LET i == Len(dic) IN
  IF i >= Len(f.tm) THEN [dic |-> dic, df |-> df]
  ELSE LET d == StepDic(dic[i], k, df[i], step, am \oplus f.tm[i]) IN
       FutureFrom(k, f, am, step, air, Append(dic, d),
                  Append(df, FCO2(d, f.pH[i + 1], f.k0[i + 1], f.k1[i + 1], f.k2[i + 1]) \ominus air))
Future(k, f, df0, dic0, at, am, step, air) ==
  LET d == StepDic(dic0, k, df0, step, (am \oplus f.tm[1]) \ominus step)
  IN  FutureFrom(k, f, am, step, air, <<d>>, <<FCO2(d, at.pH, at.k0, at.k1, at.k2) \ominus air>>)

\* least-squares rate of the fitted section: the model is linear in k
RateOf(tm, df, dic0, am, step, y) ==
  LET a == TLCEval(Fitted(Zero, tm, df, dic0, am, step))
      o == TLCEval(Fitted(One, tm, df, dic0, am, step))
      b == Tab(Len(a), LAMBDA i : a[i] \ominus o[i])
  IN  Dot(b, Tab(Len(a), LAMBDA i : a[i] \ominus y[i])) \oslash Dot(b, b)

NoNaN(v, x) == Map(v, LAMBDA u : IF RIsNaN(u) THEN x ELSE u)
MaxSkippingNaN(v) == VMax(Pick(v, Tab(Len(v), LAMBDA i : ~RIsNaN(v[i]))))
Diffs(v) == Tab(Len(v) - 1, LAMBDA i : v[i + 1] \ominus v[i])
\* median
RECURSIVE Insert(_, _, _)
Insert(s, x, i) == IF i > Len(s) THEN Append(s, x) ELSE IF x \prec s[i] THEN SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s)) ELSE Insert(s, x, i + 1)
RECURSIVE SortFrom(_, _, _)
SortFrom(v, i, acc) == IF i > Len(v) THEN acc ELSE SortFrom(v, i + 1, Insert(acc, v[i], 1))
Median(v) ==
  LET s == TLCEval(SortFrom(v, 1, <<>>))  n == Len(v)  h == n \div 2 IN
  IF n % 2 = 1 THEN s[h + 1] ELSE (s[h] \oplus s[h + 1]) \oslash R("2")

\* The high-resolution model on a grid (multiples of step from zero), given the rate
FineStep(tm) == Median(Diffs(tm)) \oslash R("10")
HiRes(q, grid, k) ==
  LET step == FineStep(q.tm)
      pH == Pchip(q.tm, q.pH, grid)
      fit == Tab(Len(grid), LAMBDA i : q.split \preceq pH[i])
      fut == Map(fit, LAMBDA b : ~b)
      itm == Pick(grid, fit)
      dloss == NoNaN(q.dic, Zero)
      dfc == VAddS(NoNaN(q.fCO2, MaxSkippingNaN(q.fCO2)), RNeg(q.air))
      iy == Pchip(q.tm, dloss, itm)
      idf == Pchip(q.tm, dfc, itm)
      dic0 == q.dic0 \otimes Mega
      idic == TLCEval(Fitted(k, itm, idf, dic0, q.am, step))
      ftm == Pick(grid, fut)
      f == [tm |-> ftm, pH |-> Pick(pH, fut), k0 |-> Pchip(q.tm, q.k0, ftm), k1 |-> Pchip(q.tm, q.k1, ftm), k2 |-> Pchip(q.tm, q.k2, ftm)]
      end == <<itm[Len(itm)]>>
      at == [pH |-> Pchip(q.tm, q.pH, end)[1], k0 |-> Pchip(q.tm, q.k0, end)[1], k1 |-> Pchip(q.tm, q.k1, end)[1], k2 |-> Pchip(q.tm, q.k2, end)[1]]
      fu == TLCEval(Future(k, f, idf[Len(idf)], idic[Len(idic)], at, q.am, step, q.air))
  IN  [pH |-> pH, dic |-> idic \o fu.dic, df |-> idf \o fu.df, nfit |-> Len(itm),
       rate |-> RateOf(itm, idf, dic0, q.am, step, iy)]
=============================================================================
