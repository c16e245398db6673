----------------------------- MODULE TableTrace ----------------------------
(***************************************************************************)
(* Executions of dataset operations.  An event has files (path -> text),   *)
(* envs (PyCO2SYS's answers) and steps; a step has the operation, kwargs,  *)
(* the table before and after, per row the configuration the driver asked  *)
(* PyCO2SYS about (eff) and the position of the answer in envs (0: none).  *)
(***************************************************************************)
EXTENDS Solver, Table, Reader, TraceBase

TolAlk == R("0.05")
TolEmf0 == R("5e-3")
RelM == R("2.5e-5")
Robust == R("5e-4")
RobustCal == R("2e-3")
RobustGran == R("1e-9")

Join(p, f) == IF p = "" THEN f ELSE IF EndsWith(p, "/") THEN Cat(p, f) ELSE Cat(Cat(p, "/"), f)
PathOf(c, row) == IF Has(c, "file_path") THEN Join(c["file_path"], row["file_name"]) ELSE row["file_name"]
\* the titration of a row under its effective options, or why there is none
Titr(e, st, i, row, c) ==
  IF ~IsStr(row["file_name"]) \/ IsNull(row["file_name"]) THEN [ok |-> FALSE, why |-> "no file name"]
  ELSE LET path == PathOf(c, row) IN
  \* (the files as they were at that step, where the history changes them)
  LET fs == IF Has(st, "files") THEN st.files ELSE e.files IN
  IF ~Has(fs, path) THEN [ok |-> FALSE, why |-> "no such file"]
  ELSE LET dat == TLCEval(Read(fs[path], c)) IN
  IF ~dat.ok THEN [ok |-> FALSE, why |-> "unreadable"]
  ELSE IF ModeName(c) = "invalid" THEN [ok |-> FALSE, why |-> "mode"]
  ELSE IF ~UnitsValid(c) THEN [ok |-> FALSE, why |-> "units"]
  ELSE IF st.envref[i] = 0 THEN [ok |-> FALSE, why |-> "MACHINERY no environment"]
  ELSE [ok |-> TRUE, why |-> "", p |-> Problem(c, dat, R(row["salinity"]), e.envs[st.envref[i]])]

Tag(name, i) == Cat(Cat(name, "@row"), IStr(i))
\* the calibrated value of a row: the molinity at which solving gives the
\* certified value (evaluated at the reported molinity first: cheap when right)
HereClauses(tt, row, got, i) ==
  IF ~tt.ok THEN Clause(Tag("fault_not_null", i), IsNull(got))
  ELSE LET cert == R(row["alkalinity_certified"])
           s == IF IsReal(got) /\ RIsFin(got) THEN TLCEval(Solve(tt.p, R(got))) ELSE [ok |-> FALSE, alk |-> NaN]
           emf == tt.p.mode \in {"emf", "pH_adjust"}
           good == \/ s.ok /\ CloseNum(s.alk, cert, TolAlk, Zero)
                   \/ /\ emf /\ s.ok /\ CloseNum(s.alk, cert, R("5"), Zero)
                      /\ StationaryAlk(Points(tt.p, s.totals, R(got)), EmfOf(tt.p), s.used, cert, s)
           k == TLCEval(Calibrate(tt.p, cert, R("0.1")))
           det == k.ok /\ RobustCal \prec k.margin /\ RobustGran \prec k.gmargin
       IN  IF good THEN {} ELSE IF ~det THEN {"~undetermined_calibration"}
           ELSE Clause(Tag("here", i), IsReal(got) /\ CloseNum(got, k.m, Zero, RelM))
\* modes without an optimiser are compared closely
Tol(p) == IF p.mode \in {"pH", "pH_gran"} THEN R("1e-6") ELSE TolAlk
\* results of a row that is to be solved with molinity m
Nulls(a, i, cs) == UNION {Clause(Tag(Cat("not_null:", c), i), IsNull(a[c])) : c \in cs}
SolveClauses(tt, m, a, i, strict) ==
  IF ~tt.ok THEN Nulls(a, i, ResultCols \ {"alkalinity_npts"}) \cup Clause(Tag("npts_not_zero", i), SameCell(a["alkalinity_npts"], 0))
  ELSE LET s == TLCEval(Solve(tt.p, m))
           det == s.ok /\ Robust \prec s.margin /\ RobustGran \prec s.gmargin
           emf == tt.p.mode \in {"emf", "pH_adjust"}
           near == \/ CloseNum(a["alkalinity"], s.alk, TolAlk, Zero) /\ CloseNum(a["emf0"], s.emf0, TolEmf0, Zero)
                   \/ /\ CloseNum(a["alkalinity"], s.alk, R("5"), Zero) /\ CloseNum(a["emf0"], s.emf0, R("0.2"), Zero)
                      /\ Stationary(Points(tt.p, s.totals, m), EmfOf(tt.p), s.used, R(a["alkalinity"]), R(a["emf0"]))
           \* consistent with the reported EMF0
           ownstd == LET q == Points(tt.p, s.totals, m)
                         est == Tab(Len(q), LAMBDA j : Mega \otimes Estimate(q[j], EmfToPH(EmfOf(tt.p)[j], R(a["emf0"]), tt.p.temp[j])))
                     IN  StdDev(Pick(est, s.used), 0)
           pH1 == IF emf /\ near THEN EmfToPH(EmfOf(tt.p)[1], R(a["emf0"]), tt.p.temp[1]) ELSE s.pH[1]
           \* not a single point in the window
           none == IF emf THEN CountTrue(s.used1) = 0 /\ Robust \prec s.margin1 /\ RobustGran \prec s.gmargin ELSE CountTrue(s.used) = 0
           \* known finding (case emf-zero-window): the EMF modes report the first guess
           nulls == IF emf /\ ~strict THEN {"alkalinity_std"} ELSE {"alkalinity", "alkalinity_std"}
       IN  IF none THEN Nulls(a, i, nulls) \cup Clause(Tag("npts_not_zero", i), SameCell(a["alkalinity_npts"], 0))
           ELSE IF ~det THEN {"~undetermined"}
           ELSE Clause(Tag("alkalinity", i), IF emf THEN near ELSE CloseNum(a["alkalinity"], s.alk, Tol(tt.p), R("1e-9")))
             \cup Clause(Tag("npts", i), SameCell(a["alkalinity_npts"], s.npts))
             \cup Clause(Tag("pH_init", i), CloseNum(a["pH_init"], pH1, R("1e-8"), Zero))
             \cup Clause(Tag("temperature_init", i), CloseNum(a["temperature_init"], tt.p.temp[1], Zero, R("1e-12")))
             \cup (IF tt.p.mode = "pH_gran" THEN Nulls(a, i, {"alkalinity_std"})
                   ELSE Clause(Tag("std", i), CloseNum(a["alkalinity_std"], IF emf /\ near THEN ownstd ELSE s.std, R("1e-7"), R("1e-7"))))
             \cup (IF emf THEN Clause(Tag("gran_emf0", i), IF RIsFin(s.gran.emf0) THEN CloseNum(a["gran_emf0"], s.gran.emf0, R("1e-6"), R("1e-9")) ELSE IsNull(a["gran_emf0"]))
                        \cup Clause(Tag("gran_alkalinity", i), IF ~RIsFin(s.gran.alk) THEN IsNull(a["gran_alkalinity"]) ELSE CloseNum(a["gran_alkalinity"], Mega \otimes s.gran.alk, Zero, R("1e-9")))
                   ELSE Nulls(a, i, {"emf0", "gran_emf0", "gran_alkalinity"}))

SameAs(a, b) == SameCell(a, b) \/ (IsReal(a) /\ IsReal(b) /\ CloseNum(a, R(b), Zero, R("1e-9")))
\* one operation
StepClauses(e, st) ==
  LET b == st.before
      a == st.after
      n == Len(b.rows)
      salts == [i \in 1..n |-> st.salts[i]]
      prep == Prepared(b, st.kw, salts)
      cal == st.op # "solve"
      eff == TLCEval([i \in 1..n |-> Effective(prep[i], st.kw)])
      tit == TLCEval([i \in 1..n |-> Titr(e, st, i, prep[i], eff[i])])
      ar == a.rows
      refs == TLCEval([i \in 1..n |-> IF cal THEN GoodRefs(ar, i) ELSE <<>>])
      \* the molinity solving had to use
      mol(i) == IF cal THEN ar[i]["titrant_molinity"] ELSE Cell(prep[i], "titrant_molinity")
      solves(i) == ~IsNull(mol(i)) /\ GoodFile(prep[i])
      structure ==
        Clause("index", a.index = b.index)
        \cup Clause("order_of_columns", SubSeq(a.cols, 1, Len(b.cols)) = b.cols)
        \cup Clause("columns", SeqToSet(a.cols) = SeqToSet(b.cols) \cup NewCols(b, st.op, st.kw))
        \cup Clause("not_in_place", st.same)
        \cup Clause("kwargs_changed", st.kwkept)
        \cup Clause("files_changed", st.fileskept)
        \cup Clause("warnings", SeqToSet(st.warned) = Ignored(st.kw))
      cells == UNION {UNION {
          Clause(Tag(Cat("cell:", c), i), SameAs(ar[i][c], prep[i][c])) :
            c \in (DOMAIN prep[i]) \ OutCols(st.op)} : i \in 1..n}
      calib == IF ~cal THEN {} ELSE
        UNION {(IF Calibrates(prep[i]) THEN HereClauses(tit[i], prep[i], ar[i]["titrant_molinity_here"], i)
                ELSE Clause(Tag("here_not_null", i), IsNull(ar[i]["titrant_molinity_here"])))
               \cup Clause(Tag("batch_mean", i),
                      IF refs[i] = <<>> THEN IsNull(ar[i]["titrant_molinity"])
                      ELSE CloseNum(ar[i]["titrant_molinity"],
                             Mean(Map(refs[i], LAMBDA j : R(ar[j]["titrant_molinity_here"]))), Zero, R("1e-12")))
               \cup (IF HasCol(b, "analysis_batch") THEN {} ELSE Clause(Tag("batch_new", i), SameCell(ar[i]["analysis_batch"], 0)))
               \cup (IF HasCol(b, "reference_good") THEN {}
                     ELSE Clause(Tag("reference_good_new", i), ar[i]["reference_good"] = ~IsNull(ar[i]["titrant_molinity_here"])))
              : i \in 1..n}
      solve == UNION {IF solves(i) THEN SolveClauses(tit[i], R(mol(i)), ar[i], i, Has(e, "case"))
                      ELSE Nulls(ar[i], i, ResultCols \ {"alkalinity_npts"})
                           \cup Clause(Tag("npts_not_zero", i), SameCell(ar[i]["alkalinity_npts"], 0)) : i \in 1..n}
      offset == IF ~HasCol(b, "alkalinity_certified") THEN {} ELSE
        UNION {Clause(Tag("offset", i),
                 IF IsNull(ar[i]["alkalinity"]) \/ IsNull(b.rows[i]["alkalinity_certified"]) THEN IsNull(ar[i]["alkalinity_offset"])
                 ELSE CloseNum(ar[i]["alkalinity_offset"], R(ar[i]["alkalinity"]) \ominus R(b.rows[i]["alkalinity_certified"]), R("1e-9"), Zero))
               : i \in 1..n}
      mach == UNION {Clause(Tag("MACHINERY_resolution", i),
                 DOMAIN eff[i] = DOMAIN st.eff[i] /\ \A o \in DOMAIN eff[i] : SameAs(eff[i][o], st.eff[i][o])) : i \in 1..n}
              \cup {tit[i].why : i \in {j \in 1..n : StartsWith(tit[j].why, "MACHINERY")}}
  IN  IF st.err # "" THEN {"raised"}
      ELSE IF ~(SeqToSet(b.cols) \cup NewCols(b, st.op, st.kw) \subseteq SeqToSet(a.cols)) \/ Len(ar) # n
      THEN structure \cup {"shape"}
      ELSE mach \cup structure \cup cells \cup calib \cup solve \cup offset

Steps(e) == UNION {{IF StartsWith(x, "MACHINERY") \/ StartsWith(x, "~") THEN x ELSE Cat(Cat(IStr(k), ":"), x) : x \in StepClauses(e, e.steps[k])} :
                     k \in 1..Len(e.steps)}

\* ---- C05 ------------------------------------------------------------------
\* direct: the functions for a single file, where the options are unknown
C05(e) ==
  Steps(e)
  \cup (IF ~Has(e, "direct") THEN {} ELSE
        UNION {Clause(Cat("direct_raised:", x.fn), x.err = "")
               \cup Clause(Cat("direct_warnings:", x.fn), x.fn = "calibrate" => SeqToSet(x.warned) = Ignored(x.kw)) : x \in SeqToSet(e.direct)})
\* ---- C06: the steps, and the same rows in another dataset ----------------------
\* map: row of the second dataset -> row of the first
RowSame(x, y, cal, c) ==
  SameCell(x, y) \/ (cal /\ IsReal(x) /\ IsReal(y) /\ CloseNum(x, R(y), R("1e-3"), R("1e-7")))
C06(e) ==
  LET a == e.steps[1].after
      z == e.steps[Len(e.steps)].after
      cs == (ResultCols \cup CalCols \cup {"alkalinity_offset"}) \cap SeqToSet(a.cols)
      cal == e.steps[1].op # "solve"
      ok == \A k \in 1..Len(e.steps) : e.steps[k].err = ""
      moved == IF ~ok \/ Len(z.rows) # Len(e.map) \/ ~(cs \subseteq SeqToSet(z.cols)) THEN {"transformed_shape"} ELSE
        UNION {UNION {Clause(Tag(Cat("depends_on_others:", c), j), RowSame(z.rows[j][c], a.rows[e.map[j]][c], cal, c)) : c \in cs} :
                 j \in 1..Len(e.map)}
  IN  Steps(e) \cup (IF Len(e.steps) > 1 THEN moved ELSE {})
\* ---- C07: batches -----------------------------------------------------------------
C07(e) ==
  LET a == e.steps[1].after
      \* the first row of every batch (labels may be of several types)
      firsts == {i \in 1..Len(a.rows) : ~IsNull(Batch(a.rows[i])) /\ \A j \in 1..(i - 1) : ~SameCell(Batch(a.rows[j]), Batch(a.rows[i]))}
      refs(b) == SelectSeq([j \in 1..Len(a.rows) |-> j], LAMBDA j : SameCell(Batch(a.rows[j]), b) /\ IsRef(a.rows[j]))
      vals(b) == Map(refs(b), LAMBDA j : R(a.rows[j]["titrant_molinity_here"]))
      got(b) == {k \in 1..Len(e.batches) : SameCell(e.batches[k].label, b)}
      one(b) ==
        IF Cardinality(got(b)) # 1 THEN {"get_batches_labels"} ELSE
        LET g == e.batches[CHOOSE k \in got(b) : TRUE]
            v == TLCEval(vals(b))
        IN  Clause("get_batches_count", SameCell(g.count, Len(v)))
            \cup Clause("get_batches_mean", IF Len(v) = 0 THEN IsNull(g.mean) ELSE CloseNum(g.mean, Mean(v), Zero, R("1e-12")))
            \cup Clause("get_batches_std", IF Len(v) < 2 THEN IsNull(g.std) ELSE CloseNum(g.std, StdDev(v, 1), R("1e-15"), R("1e-9")))
  IN  Steps(e) \cup (IF e.steps[1].err # "" THEN {} ELSE UNION {one(Batch(a.rows[i])) : i \in firsts}
                      \cup Clause("get_batches_extra", Len(e.batches) = Cardinality(firsts)))
=============================================================================
