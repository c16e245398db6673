------------------------------ MODULE PlotTrace ----------------------------
(***************************************************************************)
(* Plots (C20).  A drawing p has colls (point series: label, filled, pts,  *)
(* value: colour numbers), lines (label, pts), areas (label, lo, hi of the *)
(* extent), title (numbers in it), xlabel, ylabel.                         *)
(* What has to be drawn follows from the Titration's own row and table.    *)
(***************************************************************************)
EXTENDS Pchip, TraceBase

Same2(a, b) == CloseNum(a[1], b[1], R("1e-9"), R("1e-9")) /\ CloseNum(a[2], b[2], R("1e-12"), R("1e-9"))
SamePts(c, want) ==
  /\ Len(c) = Len(want)
  /\ \A i \in 1..Len(want) : \E j \in 1..Len(c) : Same2(c[j], want[i])
  /\ \A j \in 1..Len(c) : \E i \in 1..Len(want) : Same2(c[j], want[i])
Kilo == R("1000")
Milli0 == R("0.001")
\* points that can be seen: a null value is no point
Seen(x, y) == ~RIsNaN(x) /\ ~RIsNaN(y)
Pts(x, y, m) == Pick(Tab(Len(x), LAMBDA i : <<x[i], y[i]>>), Tab(Len(x), LAMBDA i : m[i] /\ Seen(x[i], y[i])))
Not(m) == Tab(Len(m), LAMBDA i : ~m[i])
All(x) == Tab(Len(x), LAMBDA i : TRUE)
\* a required series of points; label "*": any
S(q0, f, want) == [label |-> q0, filled |-> f, pts |-> want]
RECURSIVE SumLen(_, _)
SumLen(ss, i) == IF i > Len(ss) THEN 0 ELSE Len(ss[i].pts) + SumLen(ss, i + 1)
Match(c, s) == (s.label = "*" \/ c.label = s.label) /\ (Len(s.pts) = 0 \/ c.filled = s.filled) /\ SamePts(c.pts, s.pts)
SeriesClauses(p, ss) ==
  UNION {Clause(Cat("series:", ss[k].label), Len(ss[k].pts) = 0 \/ \E j \in 1..Len(p.colls) : Match(p.colls[j], ss[k])) : k \in 1..Len(ss)}
  \cup Clause("points_once", SumLen(p.colls, 1) = SumLen(ss, 1))
\* lines: a horizontal or vertical line at a value; a line through given points
HasLine(p, q0, want) == \E j \in 1..Len(p.lines) : (q0 = "*" \/ p.lines[j].label = q0) /\ SamePts(p.lines[j].pts, want)
\* (a null value has no line to be seen)
HLine(p, q0, v) == Clause(Cat("hline:", q0), RIsNaN(v) \/ \E j \in 1..Len(p.lines) : (q0 = "*" \/ p.lines[j].label = q0) /\ Len(p.lines[j].pts) = 2
                         /\ \A k \in 1..2 : CloseNum(p.lines[j].pts[k][2], v, R("1e-12"), R("1e-9")))
VLine(p, q0, v) == Clause(Cat("vline:", q0), \E j \in 1..Len(p.lines) : p.lines[j].label = q0 /\ Len(p.lines[j].pts) = 2
                         /\ \A k \in 1..2 : CloseNum(p.lines[j].pts[k][1], v, R("1e-9"), R("1e-7")))
Axes(p, x, y) == Clause("xlabel", p.xlabel = x) \cup Clause("ylabel", Contains(p.ylabel, y))
\* numbers in the title, rounded
Shown(p, ns, half) == Clause("title", Len(p.title) = Len(ns) /\ \A i \in 1..Len(ns) : CloseNum(p.title[i], ns[i], half[i], R("1e-9")))
Common(p, given) ==
  Clause("raised", p.err = "") \cup
  (IF p.err # "" THEN {} ELSE
     Clause("returns_axes", p.returned) \cup Clause("given_axes", p.onaxes) \cup Clause("figures", p.figures) \cup Clause("credit", p.credit))

\* a result in the row; null cells show as not a number
ResultOf(row, f) == IF IsReal(row[f]) THEN row[f] ELSE NaN
EmfMode(tab) == Has(tab, "emf")
X(tab) == VScale(tab["titrant_mass"], Kilo)
\* ---- Titration plots ------------------------------------------------------
GranFit(tab) == LinFit(Pick(tab["titrant_mass"], tab["gran_used"]), Pick(tab["gran_func"], tab["gran_used"]))
\* means over points with the same titrant mass, in increasing order
Distinct(x) == LET RECURSIVE ins(_, _, _)
                   ins(s, v, i) == IF i > Len(s) THEN Append(s, v) ELSE IF v = s[i] THEN s
                                   ELSE IF v \prec s[i] THEN SubSeq(s, 1, i - 1) \o <<v>> \o SubSeq(s, i, Len(s)) ELSE ins(s, v, i + 1)
                   RECURSIVE go(_, _)
                   go(i, acc) == IF i > Len(x) THEN acc ELSE go(i + 1, ins(acc, x[i], 1))
               IN  TLCEval(go(1, <<>>))
GroupMean(x, y, v) == Mean(Pick(y, Tab(Len(x), LAMBDA i : x[i] = v)))
Multiplier(c) == CASE c \in {"H", "HSO4", "HF", "H3PO4"} -> R("-1") [] c \in {"CO3", "PO4"} -> R("2") [] OTHER -> One
Shown1(c, v, log) == IF log THEN RNeg(RLog10(v \otimes RAbs(Multiplier(c)))) ELSE (v \otimes Multiplier(c)) \otimes Mega
Drawable == {"alkalinity_estimate", "HCO3", "CO3", "BOH4", "PO4", "HPO4", "H3PO4", "HSO4", "HF", "H3SiO4", "NH3", "HS", "H", "OH", "alk_alpha", "alk_beta"}
ComponentClauses(p, tab, log) ==
  LET x == X(tab)
      used == tab["used"]
      names == {c \in Drawable : Has(tab, c) /\ \A i \in 1..Len(x) : Zero \prec tab[c][i]}
      u == SortSeq(Distinct(tab["titrant_mass"]), LAMBDA a, b : a \prec b)
      y(c) == Map(tab[c], LAMBDA v : Shown1(c, v, log))
      mean(c) == Map(u, LAMBDA v : Shown1(c, GroupMean(tab["titrant_mass"], tab[c], v), log))
      one(c) ==
        LET yc == y(c)
            a == Pts(x, yc, used)
            b == Pts(x, yc, Not(used))
            mc == TLCEval(mean(c))
        IN  Clause(Cat("component_used:", c), Len(a) = 0 \/ \E j \in 1..Len(p.colls) : p.colls[j].filled /\ SamePts(p.colls[j].pts, a))
            \cup Clause(Cat("component_unused:", c), Len(b) = 0 \/ \E j \in 1..Len(p.colls) : ~p.colls[j].filled /\ SamePts(p.colls[j].pts, b))
            \* the line through them (the driver records some vertices)
            \cup Clause(Cat("component_line:", c), \E j \in 1..Len(p.lines) :
                   LET q0 == p.lines[j].pts
                       w == Pchip(u, mc, Map(q0, LAMBDA q : q[1] \oslash Kilo))
                   IN  /\ p.lines[j].label # ""
                       /\ \A k \in 1..Len(q0) : CloseNum(q0[k][2], w[k], R("1e-6"), R("1e-7"))
                       /\ CloseNum(q0[1][1], VMin(x), R("1e-9"), Zero) /\ CloseNum(q0[Len(q0)][1], VMax(x), R("1e-9"), Zero))
  IN  UNION {one(c) : c \in names}
      \cup Clause("points_once", SumLen(p.colls, 1) = Cardinality(names) * Len(x))
      \cup (IF log THEN Clause("inverted", p.inverted) ELSE Clause("not_inverted", ~p.inverted) \cup HLine(p, "*", Zero))
      \cup Axes(p, "Titrant mass / g", IF log THEN "mol/kg" ELSE "μmol/kg")
      \cup Clause("legend", Len(p.legend) = Cardinality(names))

Half1 == R("0.0500001")
Half2 == R("0.00500001")
PlotClauses(e, p) ==
  LET tab == e.tab
      x == X(tab)
      row == e.row
      used == tab["used"]
      gu == tab["gran_used"]
      lo == IF Has(row, "pH_min") /\ IsReal(row["pH_min"]) /\ ~RIsNaN(row["pH_min"]) THEN row["pH_min"] ELSE R("3")
      hi == IF Has(row, "pH_max") /\ IsReal(row["pH_max"]) /\ ~RIsNaN(row["pH_max"]) THEN row["pH_max"] ELSE R("4")
      est == VScale(Pick(tab["alkalinity_estimate"], used), Mega)
      fit == GranFit(tab)
      zero == RNeg(fit.intercept \oslash fit.slope)
      top == VMax(tab["titrant_mass"])
  IN  CASE p.name = "emf" ->
             SeriesClauses(p, << S("*", TRUE, Pts(x, tab["emf"], All(x))) >>) \cup Axes(p, "Titrant mass / g", "mV")
        [] p.name \in {"pH", "pH_nogran"} ->
             SeriesClauses(p, (IF p.name = "pH" /\ Has(tab, "gran_pH")
                               THEN << S("First guess, unused", FALSE, Pts(x, tab["gran_pH"], Not(gu))), S("First guess, used", TRUE, Pts(x, tab["gran_pH"], gu)) >>
                               ELSE <<>>)
                              \o << S("Final, unused", FALSE, Pts(x, tab["pH"], Not(used))), S("Final, used", TRUE, Pts(x, tab["pH"], used)) >>)
             \cup Clause("pH_range", Len(p.areas) = 1 /\ CloseNum(p.areas[1].lo, R(lo), R("1e-9"), Zero) /\ CloseNum(p.areas[1].hi, R(hi), R("1e-9"), Zero))
             \cup Axes(p, "Titrant mass / g", "pH")
        [] p.name = "gran_emf0" ->
             SeriesClauses(p, << S("Unused", FALSE, Pts(x, tab["gran_emf0"], Not(gu))), S("Used", TRUE, Pts(x, tab["gran_emf0"], gu)) >>)
             \cup HLine(p, "Gran EMF°", ResultOf(row, "gran_emf0")) \cup Shown(p, <<ResultOf(row, "gran_emf0")>>, <<Half2>>)
             \cup Axes(p, "Titrant mass / g", "mV")
        [] p.name = "gran_alkalinity" ->
             SeriesClauses(p, << S("Unused", FALSE, Pts(x, tab["gran_func"], Not(gu))), S("Used", TRUE, Pts(x, tab["gran_func"], gu)) >>)
             \cup HLine(p, "*", Zero)
             \cup Clause("fit", \E j \in 1..Len(p.lines) : p.lines[j].label = "Fit" /\ LET q0 == p.lines[j].pts IN
                    /\ Len(q0) = 2
                    /\ \A k \in 1..2 : CloseNum(q0[k][2], fit.intercept \oplus (fit.slope \otimes (q0[k][1] \oslash Kilo)), RAbs(fit.slope \otimes top) \otimes R("1e-7"), R("1e-7"))
                    /\ CloseNum(q0[1][1], zero \otimes Kilo, R("1e-9"), R("1e-7")) /\ CloseNum(q0[2][1], top \otimes Kilo, R("1e-9"), R("1e-9")))
             \cup VLine(p, "Intercept", zero \otimes Kilo)
             \cup Shown(p, << IF EmfMode(tab) THEN ResultOf(row, "gran_alkalinity") ELSE ResultOf(row, "alkalinity") >>, <<Half1>>)
             \cup Axes(p, "Titrant mass / g", "Gran function")
        [] p.name = "alkalinity" ->
             SeriesClauses(p, << S("Unused", FALSE, Pts(x, VScale(tab["alkalinity_estimate"], Mega), Not(used))),
                                 S("Used", TRUE, Pts(x, VScale(tab["alkalinity_estimate"], Mega), used)) >>)
             \cup HLine(p, "Final value", ResultOf(row, "alkalinity"))
             \cup Shown(p, << ResultOf(row, "alkalinity"), IF Len(est) < 2 THEN NaN ELSE StdDev(est, 1), R(Len(est)) >>, <<Half1, Half1, Zero>>)
             \cup Axes(p, "Titrant mass / g", "μmol/kg")
        [] p.name = "components" -> ComponentClauses(p, tab, TRUE)
        [] p.name = "components_linear" -> ComponentClauses(p, tab, FALSE)

Titled(name, cs) == {Cat(Cat(name, "/"), c) : c \in cs}
Applicable(tab) == {"pH", "pH_nogran", "alkalinity", "components", "components_linear"}
  \cup (IF Has(tab, "emf") THEN {"emf", "gran_emf0"} ELSE {}) \cup (IF Has(tab, "gran_used") THEN {"gran_alkalinity"} ELSE {})
TitPlots(e) ==
  Clause("MACHINERY_plots", {e.plots[k].name : k \in 1..Len(e.plots)} = Applicable(e.tab))
  \cup UNION {Titled(e.plots[k].name, Common(e.plots[k], 0) \cup (IF e.plots[k].err = "" THEN PlotClauses(e, e.plots[k]) ELSE {})) : k \in 1..Len(e.plots)}
  \cup Clause("titration_changed", e.kept)

\* ---- dataset plots -----------------------------------------------------------
IsT(v) == IsBool(v) /\ v
DsPlots(e) ==
  LET n == Len(e.rows)
      p == e.plot
      g == Tab(n, LAMBDA i : IsT(e.rows[i].ref))
      ycol == IF e.fn = "titrant_molinity" THEN Tab(n, LAMBDA i : e.rows[i].here) ELSE Tab(n, LAMBDA i : e.rows[i].offset)
      x == Tab(n, LAMBDA i : R(e.rows[i].x))
      ss == << S("Good data", TRUE, Pts(x, ycol, g)) >> \o (IF e.bad THEN << S("Bad data", TRUE, Pts(x, ycol, Not(g))) >> ELSE <<>>)
      labels == {e.rows[i].batch : i \in 1..n} \ {""}
      inb(b) == Tab(n, LAMBDA i : e.rows[i].batch = b)
      mols == Tab(n, LAMBDA i : e.rows[i].mol)
      \* colour numbers of the good points
      good == {j \in 1..Len(p.colls) : p.colls[j].label = "Good data"}
  IN  IF p.err # "" THEN {"raised"} ELSE
      Common(p, 0) \cup SeriesClauses(p, ss)
      \cup Clause("xlabel", p.xlabel = e.xlabel)
      \cup Clause("ylabel", Contains(p.ylabel, IF e.fn = "titrant_molinity" THEN " / mol" ELSE "/ μmol"))
      \cup Clause("legend", (Len(p.legend) > 0) = e.bad)
      \cup (IF e.fn = "alkalinity_offset" THEN HLine(p, "*", Zero) ELSE {})
      \cup (IF e.batches /\ e.fn = "titrant_molinity"
            THEN UNION {Clause("batch_line", HasLine(p, "*", Pts(x, mols, inb(b)))) : b \in labels}
                 \cup Clause("batch_lines", Len(p.lines) = Cardinality(labels))
            ELSE {})
      \cup (IF e.fn = "titrant_molinity" /\ ~e.batches THEN Clause("no_lines", Len(p.lines) = 0) ELSE {})
      \cup (IF e.batches /\ e.fn = "alkalinity_offset" /\ Len(p.colls) > 0 /\ good # {}
            THEN LET c == p.colls[CHOOSE j \in good : TRUE]
                     w == Where(Tab(n, LAMBDA i : g[i] /\ Seen(x[i], ycol[i])))
                 IN  Clause("batch_colours", Len(w) = 0 \/ (Len(c.value) = Len(w) /\
                        \A i \in 1..Len(w), j \in 1..Len(w) : (c.value[i] = c.value[j]) <=> (e.rows[w[i]].batch = e.rows[w[j]].batch)))
            ELSE {})
      \cup Clause("file", e.filed)
      \cup Clause("dataset_changed", e.kept)

\* ---- DIC loss ------------------------------------------------------------------
LossPlots(e) ==
  LET tab == e.tab
      p == e.plot
      x == X(tab)
      hx == VScale(e.hi.tm, Kilo)
      m == Tab(Len(hx), LAMBDA i : e.split \preceq e.hi.pH[i])
      dic == e.fn = "dic_loss"
      yy == IF dic THEN e.hi.dic ELSE VScale(e.hi.df, Milli0)
      pts == IF dic THEN tab["dic_loss"] ELSE VScale(VAddS(tab["fCO2_loss"], RNeg(e.air)), Milli0)
  IN  IF p.err # "" THEN {"raised"} ELSE
      Common(p, 0) \cup SeriesClauses(p, << S("Calc. from pH", TRUE, Pts(x, pts, All(x))) >>)
      \cup Clause("fitted_line", HasLine(p, "Model, 'fitted'", Pts(hx, yy, m)))
      \cup Clause("projected_line", HasLine(p, "Model, projected", Pts(hx, yy, Not(m))))
      \cup (IF dic THEN Clause("dilution", HasLine(p, "Dilution only", Pts(x, Tab(Len(x), LAMBDA i : (tab["dic"][1] \otimes Mega) \otimes tab["dilution_factor"][i]), All(x))))
                        \cup Shown(p, <<e.k>>, <<Half2>>) ELSE {})
      \cup Axes(p, "Titrant mass / g", IF dic THEN "DIC" ELSE "matm")
      \cup Clause("titration_changed", e.kept)
C20(e) == CASE e.kind = "titplot" -> (IF e.err # "" THEN {"~not solvable"} ELSE TitPlots(e))
            [] e.kind = "dsplot" -> DsPlots(e)
            [] e.kind = "lossplot" -> LossPlots(e)
=============================================================================
