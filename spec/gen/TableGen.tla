------------------------------ MODULE TableGen -----------------------------
(* Scenarios for datasets.                                                  *)
EXTENDS GenBase

Ops == {"solve", "calibrate", "calkulate"}
\* ---- C05: one option at a time, from every combination of sources ----------
ReadK == {"col_measurement", "col_temperature", "col_titrant_amount", "delimiter", "encoding", "file_type",
          "n_cols", "skip_header", "file_path"}
UnitK == {"analyte_mass", "analyte_volume", "molinity_H2SO4", "molinity_HCl", "molinity_NaCl",
          "temperature_override", "titrant", "titrant_amount_unit", "titrant_density"}
ConstK == {"k_alpha", "k_ammonia", "k_beta", "k_bisulfate", "k_borate", "k_carbonic_1", "k_carbonic_2",
           "k_fluoride", "k_phosphoric_1", "k_phosphoric_2", "k_phosphoric_3", "k_silicate", "k_sulfide", "k_water"}
TotK == {"dic", "total_alpha", "total_ammonia", "total_beta", "total_borate", "total_fluoride",
         "total_phosphate", "total_silicate", "total_sulfate", "total_sulfide"}
OptK == {"dilute_totals_for_ks", "opt_k_bisulfate", "opt_k_carbonic", "opt_k_fluoride", "opt_pH_scale", "opt_total_borate"}
AnyK == {"pH_max", "pH_min", "solve_mode", "titrant_molinity_init", "titrant_normality",
         "titrant_total_fluoride", "titrant_total_phosphate", "titrant_total_sulfate"}
EmfK == {"alkalinity_init", "double", "emf0_init", "gran_logic"}
LegK == {"pH_range", "read_dat_kwargs", "read_dat_method"}
\* sources: the column is absent, or has a value, null and another value
Src == {[col |-> TRUE, kw |-> FALSE], [col |-> TRUE, kw |-> TRUE], [col |-> FALSE, kw |-> TRUE], [col |-> FALSE, kw |-> FALSE]}
ModesFor(o) == IF o \in EmfK THEN {"emf", "pH_adjust"} ELSE IF o \in {"file_type", "solve_mode"} THEN {"pH"}
               ELSE {"pH", "pH_gran", "emf", "pH_adjust"}
One(o, s, op, m) == [kind |-> "option", opt |-> o, col |-> s.col, kw |-> s.kw, op |-> op, mode |-> m]
Opts == ReadK \cup UnitK \cup ConstK \cup TotK \cup OptK \cup AnyK \cup EmfK
\* quick: pH mode with both operations, and one other mode
C05One == UNION {{One(o, s, op, m) : s \in Src, op \in {"solve", "calibrate"},
                    m \in (IF Thorough THEN ModesFor(o) ELSE IF "pH" \in ModesFor(o) THEN {"pH"} ELSE {RandomElement(ModesFor(o))})}
                  : o \in Opts}
          \cup UNION {{One(o, [col |-> TRUE, kw |-> TRUE], "calkulate", "emf")} : o \in Opts \ {"file_type", "solve_mode"}}
\* kwargs only, or kwargs against columns
C05Legacy == {[kind |-> "legacy", opt |-> o, col |-> c, kw |-> k, op |-> op, mode |-> m, modern |-> FALSE] :
                o \in LegK, c \in {TRUE, FALSE}, k \in {TRUE, FALSE}, op \in Ops, m \in {"pH", "emf"}}
             \cup {[kind |-> "legacy", opt |-> "read_dat_method", col |-> TRUE, kw |-> TRUE, op |-> op, mode |-> "pH", modern |-> TRUE] : op \in Ops}
\* names that are no options: columns, results, misspellings, names of other functions' arguments
UnknownNames ==
  {"titrant_molinity", "alkalinity_certified", "alkalinity", "alkalinity_std", "alkalinity_npts", "alkalinity_offset", "emf0", "pH_init",
   "temperature_init", "gran_alkalinity", "gran_emf0", "analysis_batch", "file_good", "reference_good", "salinity", "file_name",
   "titrant_molinity_here", "emf_init", "alkalinity_guess", "emf0_guess", "alkalinity_Init", "EMF0_init", "pH_mim", "ph_min", "ph_max",
   "pHrange", "measurement_type", "titrant_volume", "titrant_mass", "titrant_amount", "temperature", "total_nitrate", "total_nitrite",
   "total_dic", "total_carbonate", "total_phosphates", "total_calcium", "k_carbonic", "k_phosphate_1", "k_phosphoric", "k_calcite",
   "opt_k_sulfate", "opt_k_phosphate", "opt_gas_constant", "opt_pH", "opt_fluoride", "inplace", "xtol", "gtol", "x_scale",
   "grans_logic", "use_gran", "titrant_molarity", "titrant_normal", "titrant_total_borate", "titrant_total_silicate", "dilute_totals",
   "dilute_totals_for_k", "analyte_weight", "molinity_HBr", "col_emf", "col_volume", "column_measurement", "header_skip", "sep", "read_method",
   "buoyancy", "ignore", "mode", "solve_method", "temperature_offset"}
C05Unknown == {[kind |-> "unknown", names |-> n, op |-> op, mode |-> "pH"] :
                n \in {<<"pHmin">>, <<"total_sulphate">>, <<"method", "pH_Min">>, <<"titrant_molinity_guess">>, <<"least_squares_kwargs">>, <<>>}
                     \cup {<<x>> : x \in UnknownNames},
                op \in Ops}
\* many options at once, each row with its own sources
C05Many == {[kind |-> "many", op |-> RandomElement(Ops), mode |-> RandomElement({"pH", "pH_gran", "emf", "pH_adjust"}), rep |-> k,
             opts |-> RandomSubset(9, (UnitK \cup ConstK \cup TotK \cup OptK \cup {"pH_min", "pH_max", "titrant_normality",
                        "titrant_total_sulfate", "titrant_total_phosphate", "titrant_total_fluoride"}) \ {"analyte_mass", "analyte_volume"})]
            : k \in 1..Pickn(40, 1000)}
\* ---- C06: every fault at every position, every transformation -----------------
Faults == {"missing", "nofile", "directory", "empty", "header_only", "garbage", "short", "ragged", "binary", "flagged", "unit", "titrant",
           "mode", "nowindow", "noanalyte", "reader", "nomolinity"}
Indices == {"default", "str", "shuffled", "dup", "float", "date", "multi"}
Trans == {"permute", "subset", "reindex", "alone", "twice"}
C06One == {[kind |-> "fault", faults |-> [i \in 1..3 |-> IF i = k THEN f ELSE "good"], op |-> op, mode |-> m, trans |-> t, index |-> "default", rep |-> 0] :
             f \in Faults, k \in 1..3, op \in {"solve", "calibrate"}, m \in Pickn({RandomElement({"pH", "pH_gran"})}, {"pH", "pH_gran", "emf", "pH_adjust"}),
             t \in Pickn({"permute"}, Trans)}
C06All == {[kind |-> "fault", faults |-> <<f, f, f>>, op |-> op, mode |-> m, trans |-> "permute", index |-> "str", rep |-> 0] :
             f \in Faults, op \in {"solve", "calibrate"}, m \in {"pH", "emf"}}
C06Trans == {[kind |-> "trans", faults |-> [i \in 1..RandomElement(3..5) |-> RandomElement({"good", "good", "good"} \cup (IF RandomElement(1..3) = 1 THEN Faults ELSE {}))],
              op |-> op, mode |-> m, trans |-> t, index |-> x, rep |-> k] :
             op \in Ops, m \in {"pH", "pH_gran", "emf", "pH_adjust"}, t \in Trans, x \in Indices, k \in 1..Pickn(1, 6)}
C06Known == {[kind |-> "known", faults |-> <<"nowindow", "good">>, op |-> "solve", mode |-> "emf", trans |-> "permute", index |-> "default", rep |-> 0]}
C06S == C06Known \cup C06One \cup C06All \cup Sample(Pickn(180, 2400), C06Trans)

\* ---- C07: batches ---------------------------------------------------------------
\* batch label ("" null), certified?, reference_good ("" null), file state
RowKinds == [b : {"A", "B", ""}, cert : BOOLEAN, ref : BOOLEAN, file : {"ok", "bad"}]
Labels == {"int", "str", "float", "mixed", "date"}
Cfg(rows, cols, lab, k) == [kind |-> "batch", rows |-> rows, refcol |-> cols[1], batchcol |-> cols[2], goodcol |-> cols[3],
                            label |-> lab, op |-> "calibrate", mode |-> "pH_gran", rep |-> k, twin |-> [i \in DOMAIN rows |-> i]]
\* twin[i] = j: row i measures the same titration file, with the same certified value, as row j (a reference entered twice)
AllCols == <<"present", TRUE, FALSE>>
ColSets == {<<r, b, g>> : r \in {"absent", "present", "nullok"}, b \in BOOLEAN, g \in BOOLEAN}
C07Two == {Cfg(<<r1, r2>>, AllCols, "str", 0) : r1 \in RowKinds, r2 \in RowKinds}
C07Rand(n, k) == {Cfg([i \in 1..n |-> RandomElement(RowKinds)], RandomElement(ColSets), RandomElement(Labels), j) : j \in 1..k}
C07Twins(n, k) == {[c EXCEPT !.twin = [i \in 1..n |-> IF i = 1 THEN 1 ELSE RandomElement({1, i - 1, i})],
                             !.rows = [i \in 1..n |-> [RandomElement(RowKinds) EXCEPT !.cert = RandomElement(1..4) # 1, !.file = "ok"]]] : c \in C07Rand(n, k)}
C07S == C07Two \cup C07Twins(3, Pickn(40, 500)) \cup C07Twins(5, Pickn(40, 500)) \cup C07Rand(3, Pickn(100, 2000)) \cup C07Rand(4, Pickn(60, 2000)) \cup C07Rand(7, Pickn(40, 1000))
        \cup {[s EXCEPT !.mode = m, !.op = o] : s \in C07Rand(3, Pickn(6, 60)), m \in {"emf", "pH", "pH_adjust"}, o \in {"calibrate", "calkulate"}}

C05S == C05One \cup C05Legacy \cup C05Unknown \cup C05Many
=============================================================================
