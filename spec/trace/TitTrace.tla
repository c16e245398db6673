------------------------------ MODULE TitTrace -----------------------------
(***************************************************************************)
(* Titration objects.  An event has the files and the dataset's operation  *)
(* as in TableTrace, and x: the Titration made from row x.pos (cells       *)
(* x.row, kwargs x.kw): its own row (res) and its table (tab).             *)
(***************************************************************************)
EXTENDS TableTrace

\* kwargs win over the row
Over(row, kw) == TLCEval(Expand(kw) @@ row)
TitEff(x) == Effective(Over(x.row, x.kw), [k \in {} |-> 0])
TitProblem(e, x, c) == Titr(e, [envref |-> <<x.envref>>], 1, Over(x.row, x.kw), c)

\* component columns of the table
Components == {"HCO3", "CO3", "BOH4", "PO4", "HPO4", "H3PO4", "HSO4", "HF", "H3SiO4", "NH3", "HS", "OH", "H", "alk_alpha", "alk_beta"}
Derived == {"alkalinity_from_acid", "dilution_factor", "alkalinity_from_pH", "k_CO2", "alkalinity_estimate"} \cup Components
CloseN(x, y, abs, rel) == IsReal(x) /\ IsReal(y) /\ ((RIsNaN(x) /\ RIsNaN(y)) \/ Close(x, y, abs, rel))
ColIs(tab, c, v, abs, rel) ==
  Clause(Cat("column:", c), Has(tab, c) /\ Len(tab[c]) = Len(v) /\ \A i \in 1..Len(v) : CloseN(tab[c][i], v[i], abs, rel))
MaskIs(tab, c, v) == Clause(Cat("column:", c), Has(tab, c) /\ tab[c] = v)

\* The table of a solved titration.  p: the problem, m: molinity,
\* s: the specification's solution, a: results the Titration reports
TableClauses(p, m, s, a, x) ==
  LET tab == x.tab
      n == Len(p.tm)
      emf == p.mode \in {"emf", "pH_adjust"}
      ms == EmfOf(p)
      e0 == R(a["emf0"])
      pH == IF emf THEN Tab(n, LAMBDA i : EmfToPH(ms[i], e0, p.temp[i])) ELSE p.meas
      h == Map(pH, HofPH)
      T == s.totals
      spp == PresentOn(T, p.K, 3)
      pt == Tab(n, LAMBDA i : [T |-> Point(T, i), K |-> Point(p.K, i)])
      alk == Tab(n, LAMBDA i : AlkSp(spp, h[i], pt[i].T, pt[i].K))
      acid == Tab(n, LAMBDA i : Acid0(p, m, i))
      df == Tab(n, LAMBDA i : DilutionFactor(p.tm[i], p.am))
      content(sp) == IF \E j \in 1..Len(spp) : spp[j] = sp THEN Tab(n, LAMBDA i : Content(sp, h[i], pt[i].T, pt[i].K))
                     ELSE Tab(n, LAMBDA i : Zero)
      det == Robust \prec s.margin /\ RobustGran \prec s.gmargin
      tiny == R("1e-14")
      rel == R("1e-8")
  IN  ColIs(tab, "titrant_mass", p.tm, Zero, R("1e-12"))
      \cup ColIs(tab, "temperature", p.temp, Zero, R("1e-12"))
      \cup ColIs(tab, "pH", pH, R("1e-9"), Zero)
      \cup (IF det THEN MaskIs(tab, "used", s.used) ELSE {})
      \cup (IF emf THEN ColIs(tab, "emf", ms, R("1e-9"), R("1e-12"))
                 \cup ColIs(tab, "gran_func", s.gran.gfunc, Zero, R("1e-9"))
                 \cup ColIs(tab, "gran_emf0", s.gran.emf0s, R("1e-6"), Zero)
                 \cup ColIs(tab, "gran_pH", s.gran.pH, R("1e-6"), Zero)
                 \cup MaskIs(tab, "gran_used", s.gran.used)
            ELSE IF p.mode = "pH_gran" THEN ColIs(tab, "gran_func", s.gfunc, Zero, R("1e-9")) \cup MaskIs(tab, "gran_used", s.used)
            ELSE {})
      \cup UNION {ColIs(tab, f, T[f], tiny, R("1e-10")) : f \in DOMAIN T}
      \cup UNION {ColIs(tab, f, p.K[f], Zero, R("1e-10")) : f \in DOMAIN p.K}
      \cup ColIs(tab, "alkalinity_from_pH", alk, R("1e-11"), rel)
      \cup ColIs(tab, "k_CO2", x.kco2, Zero, rel)
      \cup UNION {ColIs(tab, sp, content(sp), tiny, rel) : sp \in Components}
      \cup ColIs(tab, "dilution_factor", df, Zero, R("1e-12"))
      \cup ColIs(tab, "alkalinity_from_acid", Tab(n, LAMBDA i : ((R(a["alkalinity"]) \otimes Micro) \otimes df[i]) \ominus acid[i]), R("1e-13"), R("1e-10"))
      \cup ColIs(tab, "alkalinity_estimate", Tab(n, LAMBDA i : (alk[i] \oplus acid[i]) \oslash df[i]), R("1e-11"), rel)

\* ---- C15 -------------------------------------------------------------------
C15(e) ==
  LET x == e.x
      rw == Over(x.row, x.kw)
      c == TitEff(x)
      tt == TLCEval(TitProblem(e, x, c))
      m == R(rw["titrant_molinity"])
      a == x.res
      s == TLCEval(Solve(tt.p, m))
      last == e.steps[Len(e.steps)]
      \* no kwarg that could change the result: exactly the dataset's numbers
      plain == Len(e.steps) > 0 /\ DOMAIN x.kw \subseteq {"file_path"}
      exact == IF ~plain THEN {} ELSE
        UNION {Clause(Cat("differs_from_dataset:", k), SameCell(a[k], last.after.rows[x.pos][k])) : k \in ResultCols}
      kept == UNION {Clause(Cat("row_value:", k), SameCell(a[k], rw[k])) : k \in (DOMAIN x.row) \ (ResultCols \cup {"alkalinity_offset", "analyte_mass"})}
      offset == IF Has(x.row, "alkalinity_offset") /\ ~IsNull(rw["alkalinity_certified"])
                THEN Clause("offset", IF IsNull(a["alkalinity"]) THEN IsNull(a["alkalinity_offset"]) ELSE CloseNum(a["alkalinity_offset"], R(a["alkalinity"]) \ominus R(rw["alkalinity_certified"]), R("1e-9"), Zero)) ELSE {}
      mach == Clause("MACHINERY_resolution", DOMAIN c = DOMAIN x.eff /\ \A o \in DOMAIN c : SameAs(c[o], x.eff[o]))
              \cup (IF tt.ok THEN {} ELSE {Cat("MACHINERY_unsolvable ", tt.why)})
  IN  mach \cup Steps(e) \cup
      (IF ~tt.ok THEN {} ELSE IF IsNull(rw["titrant_molinity"]) THEN {"~not_calibrated"} ELSE IF x.err # "" THEN {"raised"} ELSE
         exact \cup kept \cup offset
         \cup SolveClauses(tt, m, IF Has(a, "emf0") THEN a ELSE [k \in ResultCols |-> Cell(a, k)], 1, FALSE)
         \cup Clause("analyte_mass", CloseNum(a["analyte_mass"], tt.p.am, Zero, R("1e-12")))
         \cup (IF s.ok THEN TableClauses(tt.p, m, s, a, x) ELSE {"~unsolved"})
         \cup Clause("dataset_changed", x.dskept)
         \cup Clause("row_changed", x.rowkept)
         \cup Clause("files_changed", x.fileskept)
         \cup Clause("kwargs_changed", x.kwkept)
         \cup Clause("attributes", x.attrs)
         \cup Clause("items", x.items)
         \cup Clause("missing_attribute", x.missing)
         \cup Clause("str", x.str /\ x.repr)
         \cup Clause("copy", x.copy)
         \cup Clause("pickle", x.pickle)
         \cup Clause("t_is_titration", x.tsame))
=============================================================================
