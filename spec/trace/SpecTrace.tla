----------------------------- MODULE SpecTrace -----------------------------
(* Speciation (C03) and electrode conversions (C17).                        *)
EXTENDS Chem, Nernst, TraceBase

Rel == R("1e-10")
\* contributions: H is -1 etc.; OH needs k_water
C03(e) ==
  IF e.which = "bad_scale" THEN Clause("not_refused", e.err # "")
  ELSE IF e.err # "" THEN {"raised"}
  ELSE
  LET n == Len(e.pH)
      spp == PresentOn(e.T, e.K, e.scale)
      want == TLCEval([sp \in {spp[j] : j \in 1..Len(spp)} |->
                 Tab(n, LAMBDA i : Content(sp, HofPH(e.pH[i]), Point(e.T, i), Point(e.K, i)))])
      alk == Tab(n, LAMBDA i : AlkSp(spp, HofPH(e.pH[i]), Point(e.T, i), Point(e.K, i)))
      \* cancellation: compare with the size of the contributions
      size == Tab(n, LAMBDA i : VSum(Tab(Len(spp), LAMBDA j : RAbs(R(Charge(spp[j])) \otimes want[spp[j]][i]))))
  IN  Clause("species", DOMAIN e.comp = DOMAIN want)
      \cup UNION {Clause(Cat("content:", sp), Has(e.comp, sp) /\ CloseVec(e.comp[sp], want[sp],
                          IF sp \in {"alk_alpha", "alk_beta"} THEN R("1e-17") ELSE Zero, Rel)) : sp \in DOMAIN want}
      \cup Clause("alkalinity", \A i \in 1..n : CloseNum(e.alk[i], alk[i], (size[i] \otimes Rel) \oplus R("1e-17"), Zero))
      \* the definition, on the code's own contents
      \cup Clause("sum", \A i \in 1..n :
             CloseNum(e.alk[i], VSum(Tab(Len(spp), LAMBDA j : R(Charge(spp[j])) \otimes e.comp[spp[j]][i])), (size[i] \otimes Rel) \oplus R("1e-17"), Zero))
      \cup Clause("inputs_changed", e.kept)

RelN == R("1e-12")
\* rounding of the argument is amplified by ln/exp: compare on the EMF axis
C17(e) ==
  IF e.err # "" THEN {"raised"}
  ELSE
  LET n == Len(e.t)
      ev(v) == Tab(n, LAMBDA i : v[i])
      want == Tab(n, LAMBDA i :
        CASE e.fn = "emf_to_h" -> EmfToH(e.x[i], e.e0[i], e.t[i])
          [] e.fn = "emf_to_pH" -> EmfToPH(e.x[i], e.e0[i], e.t[i])
          [] e.fn = "h_to_emf" -> HToEmf(e.x[i], e.e0[i], e.t[i])
          [] e.fn = "pH_to_emf" -> PHToEmf(e.x[i], e.e0[i], e.t[i])
          [] e.fn = "f_to_demf0" -> FToDemf0(e.x[i], e.t[i]))
      abs == IF e.fn = "emf_to_h" THEN Zero ELSE R("1e-10")
  IN  Clause("formula", CloseVec(e.got, want, abs, RelN \otimes R("50")))
      \cup Clause("shape", e.shape_ok)
      \cup (IF Has(e, "back") THEN Clause("inverse", CloseVec(e.back, e.x, R("1e-9"), R("1e-11"))) ELSE {})
      \cup (IF Has(e, "shifted") THEN Clause("shift", CloseVec(e.shifted, e.got, R("1e-9"), R("1e-9"))) ELSE {})
      \cup (IF Has(e, "scaled") THEN Clause("f_factor", CloseVec(e.scaled, e.ref, Zero, R("1e-9"))) ELSE {})
      \cup Clause("inputs_changed", e.kept)
============================================================================
