-------------------------------- MODULE Units ------------------------------
(***************************************************************************)
(* Amounts to masses.  c is the effective configuration of a titration:    *)
(* a function from option names to values in which absent options are      *)
(* missing (see Options).                                                  *)
(***************************************************************************)
EXTENDS Vec

Milli == R("1e-3")

\* Seawater at 1 atm, Millero & Poisson (1981), kg/l
RhoSeawater(t, s) ==
  LET Horner(cs) == LET RECURSIVE go(_)
                        go(i) == IF i > Len(cs) THEN Zero ELSE cs[i] \oplus (t \otimes go(i + 1))
                    IN go(1)
      rho0 == Horner(<<R("999.842594"), R("6.793952e-2"), R("-9.095290e-3"),
                       R("1.001685e-4"), R("-1.120083e-6"), R("6.536336e-9")>>)
      a == Horner(<<R("0.824493"), R("-4.0899e-3"), R("7.6438e-5"), R("-8.2467e-7"), R("5.3875e-9")>>)
      b == Horner(<<R("-5.72466e-3"), R("1.0227e-4"), R("-1.6546e-6")>>)
      c == R("4.8314e-4")
  IN  (rho0 \oplus (a \otimes s) \oplus (b \otimes (s \otimes RSqrt(s))) \oplus (c \otimes Sq(s))) \otimes Milli

\* HCl-NaCl mixture at 25 C, Dickson et al. (2007) SOP 3b, g/ml
RhoHClNaCl(mHCl, mNaCl) ==
  LET rw == R("0.99704")
      m == mHCl \oplus mNaCl
      sm == RSqrt(m)
      phiH == (R("17.854") \oplus (R("1.460") \otimes sm)) \ominus (R("0.307") \otimes m)
      phiN == R("16.613") \oplus (R("1.811") \otimes sm) \oplus (R("0.094") \otimes m)
      mass == (R("36.46") \otimes mHCl) \oplus (R("58.44") \otimes mNaCl)     \* = mT * m
      vol == (mHCl \otimes phiH) \oplus (mNaCl \otimes phiN)                   \* = phi_mix * m
  IN  (rw \otimes (R("1e3") \oplus mass)) \oslash (R("1e3") \oplus (vol \otimes rw))

\* H2SO4 at 25 C, quadratic fit to E-AIM, g/ml
RhoH2SO4(m) == (R("0.99750018") \oplus (R("0.06181819") \otimes m)) \ominus (R("0.00285491") \otimes Sq(m))

Opt(c, k, default) == IF Has(c, k) THEN c[k] ELSE default

\* kg of titrant per unit amount in the file
TitrantFactor(c) ==
  LET u == Lower(Opt(c, "titrant_amount_unit", "ml")) IN
  CASE u = "kg" -> One
    [] u = "g" -> Milli
    [] u = "ml" ->
        IF Has(c, "titrant_density") THEN c["titrant_density"] \otimes Milli
        ELSE IF Lower(Opt(c, "titrant", "HCl")) = "h2so4"
             THEN RhoH2SO4(Opt(c, "molinity_H2SO4", R("0.1"))) \otimes Milli
             ELSE RhoHClNaCl(Opt(c, "molinity_HCl", R("0.1")), Opt(c, "molinity_NaCl", R("0.6"))) \otimes Milli
Temperatures(c, dat) ==
  IF Has(c, "temperature_override")
  THEN Map(dat.temperature, LAMBDA t : R(c["temperature_override"])) ELSE dat.temperature
AnalyteMass(c, dat, salinity) ==
  IF Has(c, "analyte_mass") THEN R(c["analyte_mass"])
  ELSE (R(c["analyte_volume"]) \otimes RhoSeawater(Temperatures(c, dat)[1], salinity)) \otimes Milli
\* Refused configurations
UnitsValid(c) ==
  /\ Lower(Opt(c, "titrant_amount_unit", "ml")) \in {"ml", "g", "kg"}
  /\ \/ Lower(Opt(c, "titrant_amount_unit", "ml")) # "ml"
     \/ Has(c, "titrant_density")
     \/ Lower(Opt(c, "titrant", "HCl")) \in {"hcl", "h2so4"}
  /\ Has(c, "analyte_mass") \/ Has(c, "analyte_volume")

\* dat: [amount, measurement, temperature] -> the converted titration
Convert(c, dat, salinity) ==
  LET f == TitrantFactor(c) IN
  [tm |-> Map(dat.amount, LAMBDA x : x \otimes f),
   meas |-> dat.measurement,
   temp |-> Temperatures(c, dat),
   am |-> AnalyteMass(c, dat, salinity)]
=============================================================================
