------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* Options of a titration: which there are, and which of several sources   *)
(* decides.  row: function from column names to cells; kw: the kwargs.     *)
(***************************************************************************)
EXTENDS Vec, FiniteSets

Null == "NULL_"
IsNull(v) == IF IsStr(v) THEN v = Null ELSE IF IsReal(v) THEN RIsNaN(v) ELSE FALSE
SameCell(a, b) ==
  IF IsNull(a) \/ IsNull(b) THEN IsNull(a) /\ IsNull(b)
  ELSE IF IsReal(a) /\ IsReal(b) THEN R(a) = R(b)
  ELSE IsStr(a) = IsStr(b) /\ IsBool(a) = IsBool(b) /\ IsSeq(a) = IsSeq(b) /\ a = b

ReadKeys == {"col_measurement", "col_temperature", "col_titrant_amount", "delimiter", "encoding",
             "file_type", "n_cols", "skip_header"}
UnitKeys == {"analyte_mass", "analyte_volume", "molinity_H2SO4", "molinity_HCl", "molinity_NaCl",
             "temperature_override", "titrant", "titrant_amount_unit", "titrant_density"}
ConstantKeys == {"k_alpha", "k_ammonia", "k_beta", "k_bisulfate", "k_borate", "k_carbonic_1", "k_carbonic_2",
                 "k_fluoride", "k_phosphoric_1", "k_phosphoric_2", "k_phosphoric_3", "k_silicate", "k_sulfide",
                 "k_water"}
TotalKeys == {"dic", "total_alpha", "total_ammonia", "total_beta", "total_borate", "total_fluoride",
              "total_phosphate", "total_silicate", "total_sulfate", "total_sulfide"}
ChemKeys == ConstantKeys \cup TotalKeys \cup
            {"dilute_totals_for_ks", "opt_k_bisulfate", "opt_k_carbonic", "opt_k_fluoride", "opt_pH_scale",
             "opt_total_borate"}
SolveKeys == {"alkalinity_init", "double", "emf0_init", "gran_logic", "pH_max", "pH_min", "solve_mode",
              "titrant_molinity_init", "titrant_normality", "titrant_total_fluoride",
              "titrant_total_phosphate", "titrant_total_sulfate"}
OptionKeys == ReadKeys \cup UnitKeys \cup ChemKeys \cup SolveKeys \cup {"file_path"}
CallKeys == {"verbose"}     \* arguments of the call itself: whether to print progress
LegacyKeys == {"pH_range", "read_dat_kwargs", "read_dat_method"}

\* the legacy spellings in their modern forms
Expand(kw) ==
  LET k1 == IF Has(kw, "read_dat_kwargs") THEN kw["read_dat_kwargs"] @@ kw ELSE kw
      k2 == IF Has(k1, "pH_range") THEN ("pH_min" :> k1["pH_range"][1]) @@ (("pH_max" :> k1["pH_range"][2]) @@ k1) ELSE k1
  IN  IF Has(k2, "read_dat_method") THEN ("file_type" :> k2["read_dat_method"]) @@ k2 ELSE k2
\* non-null cell, else kwarg, else missing (the default)
Effective(row, kw) ==
  LET k == Expand(kw)
      ke == IF Has(row, "read_dat_method") /\ ~IsNull(row["read_dat_method"])
            THEN ("file_type" :> row["read_dat_method"]) @@ k ELSE k
      cell == {o \in OptionKeys \cap DOMAIN row : ~IsNull(row[o])}
      given == OptionKeys \cap DOMAIN ke
  IN  TLCEval([o \in cell \cup given |-> IF o \in cell THEN row[o] ELSE ke[o]])
\* kwargs that are reported as ignored
Ignored(kw) == (DOMAIN Expand(kw)) \ (OptionKeys \cup LegacyKeys \cup CallKeys)
=============================================================================
