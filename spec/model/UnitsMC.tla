------------------------------- MODULE UnitsMC -----------------------------
(* Laws of the conversion of amounts: every combination of the options.     *)
EXTENDS Units, FiniteSets
VARIABLES unit, dens, titrant, analyte, over, sal
vars == <<unit, dens, titrant, analyte, over, sal>>
Dat == [amount |-> <<R("0"), R("0.5"), R("1.25")>>, measurement |-> <<R("1"), R("2"), R("3")>>, temperature |-> <<R("20"), R("21"), R("22")>>]
Init == unit = "none" /\ dens \in BOOLEAN /\ titrant = "none" /\ analyte \in {"mass", "volume", "both", "neither"} /\ over \in BOOLEAN /\ sal \in {5, 20, 35}
Next == unit = "none" /\ unit' \in {"default", "ml", "ML", "g", "G", "kg", "Kg", "l"} /\ titrant' \in {"default", "HCl", "hcl", "H2SO4", "h2so4", "acid"}
        /\ UNCHANGED <<dens, analyte, over, sal>>
Spec == Init /\ [][Next]_vars
c == (IF unit = "default" THEN <<>> ELSE "titrant_amount_unit" :> unit) @@ (IF dens THEN "titrant_density" :> R("1.02") ELSE <<>>)
     @@ (IF titrant = "default" THEN <<>> ELSE "titrant" :> titrant)
     @@ (IF analyte \in {"mass", "both"} THEN "analyte_mass" :> R("0.11") ELSE <<>>)
     @@ (IF analyte \in {"volume", "both"} THEN "analyte_volume" :> R("100") ELSE <<>>)
     @@ (IF over THEN "temperature_override" :> R("25") ELSE <<>>)
cv == Convert(c, Dat, R(sal))
Near(a, b) == Close(a, b, Zero, R("1e-13"))
u == IF unit = "default" THEN "ml" ELSE Lower(unit)
Ready == unit # "none"
Valid == u \in {"ml", "g", "kg"} /\ (u # "ml" \/ dens \/ Lower(titrant) \in {"default", "hcl", "h2so4"}) /\ analyte # "neither"
Refused == Ready => (UnitsValid(c) <=> Valid)
Proportional == (Ready /\ Valid) => /\ cv.tm[1] = Zero /\ Near(cv.tm[3], cv.tm[2] \otimes R("2.5"))
\* a kilogram is a thousand grams; a given density decides; acids of about 0.1 mol/kg are near 1 g/ml
Factor == (Ready /\ Valid) =>
  CASE u = "kg" -> Near(cv.tm[2], R("0.5")) [] u = "g" -> Near(cv.tm[2], R("0.0005"))
    [] u = "ml" /\ dens -> Near(cv.tm[2], R("0.00051")) [] OTHER -> R("0.00049") \prec cv.tm[2] /\ cv.tm[2] \prec R("0.00053")
\* a stated mass wins; a volume becomes a mass by the density of seawater at the first temperature
Analyte == (Ready /\ Valid) => IF analyte # "volume" THEN cv.am = R("0.11")
  ELSE /\ R("0.0995") \prec cv.am /\ cv.am \prec R("0.1035")
       /\ Near(cv.am, R("0.1") \otimes RhoSeawater(IF over THEN R("25") ELSE R("20"), R(sal)))
Denser == RhoSeawater(R("20"), R(sal)) \prec RhoSeawater(R("20"), R(sal + 1)) /\ RhoSeawater(R("25"), R(sal)) \prec RhoSeawater(R("20"), R(sal))
Kept == (Ready /\ Valid) => cv.meas = Dat.measurement /\ (IF over THEN \A i \in 1..3 : cv.temp[i] = R("25") ELSE cv.temp = Dat.temperature)
Inv == Refused /\ Proportional /\ Factor /\ Analyte /\ Denser /\ Kept
=============================================================================
