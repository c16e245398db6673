------------------------------- MODULE Mixing ------------------------------
(***************************************************************************)
(* Contents of the titrant-analyte mixture.                                *)
(***************************************************************************)
EXTENDS Units

DilutionFactor(tm, am) == am \oslash (tm \oplus am)

\* Totals of the analyte (mol/kg), from the user's values in umol/kg or else
\* from PyCO2SYS for the salinity (env, umol/kg).  Minor totals that are
\* absent or zero are left out; DIC and the major salts are always there.
MinorTotals == {"total_alpha", "total_beta", "total_ammonia", "total_silicate",
                "total_phosphate", "total_sulfide"}
MajorTotals == {"total_borate", "total_fluoride", "total_sulfate"}
AnalyteTotals(c, env) ==
  LET minor == {f \in MinorTotals : Has(c, f) /\ Zero \prec R(c[f])}
      val(f) == IF f = "dic" THEN R(Opt(c, "dic", Zero))
                ELSE IF f \in minor THEN R(c[f])
                ELSE IF Has(c, f) THEN R(c[f]) ELSE env[f]
  IN  TLCEval([f \in {"dic"} \cup MajorTotals \cup minor |-> val(f) \otimes Micro])

\* ... diluted through the titration
DilutedTotals(T0, tm, am) ==
  LET df == Map(tm, LAMBDA x : DilutionFactor(x, am))
  IN  TLCEval([f \in DOMAIN T0 |-> VScale(df, T0[f])])

\* ... plus what the titrant brings.  add: function total name -> factor.
WithTitrant(T, tm, am, m, add) ==
  TLCEval([f \in DOMAIN T \cup DOMAIN add |->
    LET t0 == IF Has(T, f) THEN T[f] ELSE Map(tm, LAMBDA x : Zero)
    IN  IF Has(add, f)
        THEN Tab(Len(tm), LAMBDA i : t0[i] \oplus
               (((tm[i] \otimes m) \otimes R(add[f])) \oslash (tm[i] \oplus am)))
        ELSE t0])

\* Titrant-borne solutes stated in a configuration
TitrantAdds(c) ==
  LET fs == {f \in {"total_sulfate", "total_phosphate", "total_fluoride"} : Has(c, Cat("titrant_", f))}
  IN  [f \in fs |-> c[Cat("titrant_", f)]]
=============================================================================
