------------------------------- MODULE ChemMC ------------------------------
(***************************************************************************)
(* Laws of the speciation over a grid of pH (units of 0.25), scales and    *)
(* sets of totals: what a chemist demands of Chem, independently of how it *)
(* is written.                                                             *)
(***************************************************************************)
EXTENDS Chem, FiniteSets
VARIABLES q4, have, scale      \* 4 * pH; totals present; pH scale
vars == <<q4, have, scale>>

Totals == {"dic", "total_borate", "total_phosphate", "total_silicate", "total_ammonia", "total_sulfide", "total_alpha", "total_beta",
           "total_fluoride", "total_sulfate"}
Amount == [f \in Totals |-> CASE f = "dic" -> R("2.1e-3") [] f = "total_borate" -> R("4.2e-4") [] f = "total_sulfate" -> R("2.82e-2")
                              [] f = "total_fluoride" -> R("6.8e-5") [] f = "total_phosphate" -> R("3e-6") [] OTHER -> R("2e-5")]
K == [k_water |-> R("5.7e-14"), k_carbonic_1 |-> R("1.4e-6"), k_carbonic_2 |-> R("1.1e-9"), k_borate |-> R("2.4e-9"),
      k_phosphoric_1 |-> R("2.4e-2"), k_phosphoric_2 |-> R("1.2e-6"), k_phosphoric_3 |-> R("1.6e-9"), k_silicate |-> R("4e-10"),
      k_ammonia |-> R("5.9e-10"), k_sulfide |-> R("2.5e-7"), k_alpha |-> R("1e-4"), k_beta |-> R("1e-6"), k_fluoride |-> R("2.4e-3"),
      k_bisulfate |-> R("1e-1")]
T == [f \in have |-> Amount[f]]
\* nothing, everything, each alone, everything but one
Sets == {{}, Totals} \cup {{f} : f \in Totals} \cup {Totals \ {f} : f \in Totals}
Init == have \in Sets /\ scale \in {1, 2, 3} /\ q4 = 8
Next == q4 < 48 /\ q4' = q4 + 1 /\ UNCHANGED <<have, scale>>
Spec == Init /\ [][Next]_vars

h == HofPH(R(q4) \oslash R("4"))
C(sp) == Content(sp, h, T, K)
Near(a, b) == Close(a, b, R("1e-18"), R("1e-12"))
\* mass action, where both forms are species of the model
MassAction ==
  /\ "dic" \in have => Near(C("HCO3") \otimes h, C("CO2") \otimes K["k_carbonic_1"]) /\ Near(C("CO3") \otimes h, C("HCO3") \otimes K["k_carbonic_2"])
  /\ "total_phosphate" \in have => Near(C("PO4") \otimes h, C("HPO4") \otimes K["k_phosphoric_3"])
                                   /\ Near((C("HPO4") \otimes h) \otimes h, (C("H3PO4") \otimes K["k_phosphoric_1"]) \otimes K["k_phosphoric_2"])
  /\ Near(C("OH") \otimes h, K["k_water"])
\* conservation of mass: the other form is what is left, and fits mass action too
Mono == {<<"BOH4", "total_borate", "k_borate">>, <<"H3SiO4", "total_silicate", "k_silicate">>, <<"NH3", "total_ammonia", "k_ammonia">>,
         <<"HS", "total_sulfide", "k_sulfide">>}
AcidForm == {<<"HF", "total_fluoride", "k_fluoride">>, <<"HSO4", "total_sulfate", "k_bisulfate">>}
MassBalance ==
  /\ "dic" \in have => Near(C("CO2") \oplus (C("HCO3") \oplus C("CO3")), T["dic"])
  /\ \A m \in Mono : m[2] \in have => Close(C(m[1]) \otimes h, (T[m[2]] \ominus C(m[1])) \otimes K[m[3]], R("1e-24"), R("1e-9"))
  /\ \A m \in AcidForm : m[2] \in have => Close((T[m[2]] \ominus C(m[1])) \otimes h, C(m[1]) \otimes K[m[3]], R("1e-24"), R("1e-9"))
Positive == \A i \in 1..Len(PresentOn(T, K, 3)) :
              LET sp == PresentOn(T, K, 3)[i] IN sp \notin {"alk_alpha", "alk_beta"} => Zero \preceq C(sp) /\ (Needs(sp) # "" => C(sp) \preceq T[Needs(sp)])
\* an acid with pK below the zero level never counts positively, another never negatively
ZeroLevelSide == /\ "total_alpha" \in have => C("alk_alpha") \preceq Zero
                 /\ "total_beta" \in have => Zero \preceq C("alk_beta")
\* adding acid lowers alkalinity: it strictly increases with pH
Monotone == Alk(h, T, K, scale) \prec Alk(HofPH(R(q4 + 1) \oslash R("4")), T, K, scale)
\* contributions add up: all of them together are the sum of each alone
OnlyH == RNeg(h) \oplus C("OH")
Additive == have = Totals =>
  Close(Alk(h, T, K, scale), OnlyH \oplus VSum(LET s == <<"dic", "total_borate", "total_phosphate", "total_silicate", "total_ammonia",
             "total_sulfide", "total_alpha", "total_beta", "total_fluoride", "total_sulfate">> IN
         Tab(Len(s), LAMBDA i : Alk(h, s[i] :> Amount[s[i]], K, scale) \ominus OnlyH)), R("1e-15"), R("1e-10"))
\* what a scale leaves out is exactly what H stands for on it
Scales == /\ "total_sulfate" \in have => Close(Alk(h, T, K, 1) \ominus Alk(h, T, K, 3), C("HSO4"), R("1e-15"), R("1e-9"))
          /\ "total_fluoride" \in have => Close(Alk(h, T, K, 2) \ominus Alk(h, T, K, 1), C("HF"), R("1e-15"), R("1e-9"))
Inv == MassAction /\ MassBalance /\ Positive /\ ZeroLevelSide /\ Monotone /\ Additive /\ Scales
=============================================================================
