------------------------------ MODULE Simulate -----------------------------
(***************************************************************************)
(* A simulated titration of a seawater-like analyte with HCl.              *)
(***************************************************************************)
EXTENDS Loss, Nernst

SimDefaults == [analyte_mass |-> R("0.1"), dic |-> Zero, emf0 |-> R("600"), fCO2_air |-> R("450"), salinity |-> R("35"),
                temperature |-> R("25"), titrant_mass_start |-> Zero, titrant_mass_step |-> R("0.15e-3"),
                titrant_mass_stop |-> R("4.2e-3"), titrant_molinity |-> R("0.1"), opt_gas_constant |-> R("3"),
                opt_k_bisulfate |-> R("1"), opt_k_carbonic |-> R("10"), opt_k_fluoride |-> R("1"), opt_total_borate |-> R("1")]
SimEff(given) == TLCEval(given @@ SimDefaults)
SimTotals == {"total_alpha", "total_ammonia", "total_beta", "total_borate", "total_calcium", "total_fluoride",
              "total_phosphate", "total_silicate", "total_sulfate", "total_sulfide"}
FromSalinity == {"total_borate", "total_calcium", "total_fluoride", "total_sulfate"}
\* points start + i * step below stop (the boundary is subject to rounding)
PointsOK(tm, a) ==
  LET n == Len(tm)
      at(i) == R(a.titrant_mass_start) \oplus (R(i) \otimes R(a.titrant_mass_step))
      eps == R(a.titrant_mass_step) \otimes R("1e-9")
  IN  /\ n > 0
      /\ \A i \in 1..n : CloseNum(tm[i], at(i - 1), R("1e-15"), R("1e-12"))
      /\ at(n - 1) \prec (R(a.titrant_mass_stop) \oplus eps)
      /\ (R(a.titrant_mass_stop) \ominus eps) \preceq at(n)
\* umol/kg
AlkAt(a, tm) ==
  LET am == R(a.analyte_mass) IN
  ((am \otimes R(a.alkalinity)) \ominus ((tm \otimes R(a.titrant_molinity)) \otimes Mega)) \oslash (am \oplus tm)
UndilutedTotal(a, salts, f) == IF Has(a, f) THEN R(a[f]) ELSE IF f \in FromSalinity THEN salts[f] ELSE Zero
\* DIC, given the fCO2 at each point
SimDic(a, tm, fCO2) ==
  LET am == R(a.analyte_mass)
      first == R(a.dic) \otimes DilutionFactor(tm[1], am)
  IN  IF Has(a, "k_dic_loss")
      THEN Fitted(R(a.k_dic_loss), tm, VAddS(fCO2, RNeg(R(a.fCO2_air))), first, am, R(a.titrant_mass_step))
      ELSE Map(tm, LAMBDA x : R(a.dic) \otimes DilutionFactor(x, am))
=============================================================================
