-------------------------------- MODULE Chem -------------------------------
(***************************************************************************)
(* Speciation of a seawater-like solution and the definition of total      *)
(* alkalinity (Dickson 1981), on the Total (1), Seawater (2) and Free (3)  *)
(* pH scales.  T: totals in mol/kg (function from names), K: constants.    *)
(***************************************************************************)
EXTENDS Vec

ZeroLevel == R("4.5")    \* pK of the zero level of protons

Species == << "H", "OH", "CO2", "HCO3", "CO3", "BOH4", "H3PO4", "HPO4", "PO4",
              "H3SiO4", "NH3", "HS", "alk_alpha", "alk_beta", "HF", "HSO4" >>
\* Which total each species needs ("" : none)
Needs(sp) ==
  CASE sp = "H" -> "" [] sp = "OH" -> ""
    [] sp \in {"CO2", "HCO3", "CO3"} -> "dic"
    [] sp = "BOH4" -> "total_borate"
    [] sp \in {"H3PO4", "HPO4", "PO4"} -> "total_phosphate"
    [] sp = "H3SiO4" -> "total_silicate"
    [] sp = "NH3" -> "total_ammonia"
    [] sp = "HS" -> "total_sulfide"
    [] sp = "alk_alpha" -> "total_alpha"
    [] sp = "alk_beta" -> "total_beta"
    [] sp = "HF" -> "total_fluoride"
    [] sp = "HSO4" -> "total_sulfate"
\* Contribution of one mole of the species to alkalinity
Charge(sp) ==
  CASE sp \in {"H", "HSO4", "HF", "H3PO4"} -> -1
    [] sp = "CO2" -> 0
    [] sp \in {"CO3", "PO4"} -> 2
    [] OTHER -> 1
\* On the Total scale H includes HSO4; on the Seawater scale also HF.
OnScale(sp, scale) ==
  CASE sp = "HSO4" -> scale = 3
    [] sp = "HF" -> scale \in {1, 3}
    [] OTHER -> TRUE
PresentOn(T, K, scale) ==
  TLCEval(SelectSeq(Species, LAMBDA sp :
     /\ OnScale(sp, scale)
     /\ IF Needs(sp) = "" THEN sp = "H" \/ Has(K, "k_water") ELSE Has(T, Needs(sp))))

\* A monoprotic acid: content of the base for total t and constant k
Base(t, k, h) == (t \otimes k) \oslash (k \oplus h)
Acid(t, k, h) == (t \otimes h) \oslash (k \oplus h)
ZLP(t, k, h) == IF RNeg(RLog10(k)) \preceq ZeroLevel
                THEN RNeg(Acid(t, k, h)) ELSE Base(t, k, h)

Content(sp, h, T, K) ==
  CASE sp = "H" -> h
    [] sp = "OH" -> K["k_water"] \oslash h
    [] sp \in {"CO2", "HCO3", "CO3"} ->
        LET k1 == K["k_carbonic_1"]  k2 == K["k_carbonic_2"]
            k12 == k1 \otimes k2
            den == (h \otimes h) \oplus (k1 \otimes h) \oplus k12
            num == IF sp = "CO2" THEN h \otimes h
                   ELSE IF sp = "HCO3" THEN k1 \otimes h ELSE k12
        IN  (T["dic"] \otimes num) \oslash den
    [] sp = "BOH4" -> Base(T["total_borate"], K["k_borate"], h)
    [] sp \in {"H3PO4", "HPO4", "PO4"} ->
        LET k1 == K["k_phosphoric_1"]
            k12 == k1 \otimes K["k_phosphoric_2"]
            k123 == k12 \otimes K["k_phosphoric_3"]
            h3 == (h \otimes h) \otimes h
            den == h3 \oplus ((k1 \otimes h) \otimes h) \oplus (k12 \otimes h) \oplus k123
            num == IF sp = "H3PO4" THEN h3
                   ELSE IF sp = "HPO4" THEN k12 \otimes h ELSE k123
        IN  (T["total_phosphate"] \otimes num) \oslash den
    [] sp = "H3SiO4" -> Base(T["total_silicate"], K["k_silicate"], h)
    [] sp = "NH3" -> Base(T["total_ammonia"], K["k_ammonia"], h)
    [] sp = "HS" -> Base(T["total_sulfide"], K["k_sulfide"], h)
    [] sp = "alk_alpha" -> ZLP(T["total_alpha"], K["k_alpha"], h)
    [] sp = "alk_beta" -> ZLP(T["total_beta"], K["k_beta"], h)
    [] sp = "HF" -> Acid(T["total_fluoride"], K["k_fluoride"], h)
    [] sp = "HSO4" -> Acid(T["total_sulfate"], K["k_bisulfate"], h)

HofPH(pH) == RPow(R("10"), RNeg(pH))
\* Total alkalinity from [H+] with the given present species
AlkSp(spp, h, T, K) ==
  VSum(Tab(Len(spp), LAMBDA j : R(Charge(spp[j])) \otimes Content(spp[j], h, T, K)))
Alk(h, T, K, scale) == AlkSp(PresentOn(T, K, scale), h, T, K)

\* point i of per-point tables (records of sequences)
Point(tbl, i) == TLCEval([f \in DOMAIN tbl |-> tbl[f][i]])
=============================================================================
