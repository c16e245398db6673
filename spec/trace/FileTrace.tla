------------------------------ MODULE FileTrace ----------------------------
(***************************************************************************)
(* Executions of the file readers, write_dat and the table readers.        *)
(***************************************************************************)
EXTENDS TableTrace, Dbs, WriteFs

\* ---- C12 ------------------------------------------------------------------
Exact(x, y) == CloseVec(x, y, Zero, R("4e-16"))
C12(e) ==
  LET exp == TLCEval(Read([text |-> e.text, enc |-> e.enc], e.c))
      g == e.got
      ft == IF Has(e.c, "file_type") THEN e.c["file_type"] ELSE "genfromtxt"
  IN  IF ~exp.ok
      THEN (IF e.scn.kind = "delim" /\ e.scn.rows \in {"short", "long"} THEN Clause("misread", g.err # "") ELSE {"MACHINERY_not_readable"})
      ELSE IF g.err # "" THEN {"raised"}
      ELSE Clause("amount", Exact(g.amount, exp.amount))
        \cup Clause("measurement", Exact(g.measurement, exp.measurement))
        \cup Clause("temperature", Exact(g.temperature, exp.temperature))
        \cup Clause("fields", g.byname)
        \cup Clause("again", g.again)
        \cup Clause("file_changed", g.kept)
        \cup Clause("unknown_type_not_reported", ft \in KnownTypes \/ g.named)
        \cup Clause("known_type_reported", ft \notin KnownTypes \/ ~g.warned)

\* ---- C13 ------------------------------------------------------------------
\* the file system after the first k steps: path -> Absent, the user's own
\* file, or the columns written (rounded by their formats)
RECURSIVE FsAfter(_, _)
FsAfter(e, k) ==
  IF k = 0 THEN [p \in SeqToSet(e.files) |-> IF p \in SeqToSet(e.pre) THEN (IF e.empty THEN EmptyFile ELSE UserFile) ELSE Absent]
  ELSE LET fs == FsAfter(e, k - 1) st == e.steps[k] IN
       IF st.op = "write" THEN AfterWrite(fs, st, Written(st)) ELSE fs
UserCols == <<<<R("1"), R("4")>>, <<R("2"), R("5")>>, <<R("3"), R("6")>>>>
ColsOf(c) == IF c = UserFile THEN UserCols ELSE c.cols
C13Step(e, k) ==
  LET st == e.steps[k]
      fs == TLCEval(FsAfter(e, k - 1))
      there == fs[st.path] # Absent
      untouched(p) == Has(st.before, p) /\ Has(st.after, p) /\ st.before[p] = st.after[p]
      others == /\ \A p \in DOMAIN st.before \ {st.path} : untouched(p)
                /\ DOMAIN st.after \subseteq DOMAIN st.before \cup {st.path}
  IN  IF st.op = "write" THEN
        IF CanWrite(fs, st) THEN
          Clause("write_raised", st.err = "") \cup Clause("nothing_written", Has(st.after, st.path))
          \cup Clause("other_file_changed", others) \cup Clause("arguments_changed", st.argskept)
          \cup (IF st.err # "" THEN {} ELSE
                Clause("line_endings", st.ends = <<st.eol>>)
                \cup Clause("header", /\ Len(st.head) = 2
                                      /\ Has(st.lines, "line0") => st.head[1] = st.lines["line0"]
                                      /\ Has(st.lines, "line1") => st.head[2] = st.lines["line1"]))
        ELSE Clause("overwrite_not_refused", st.err # "") \cup Clause("existing_file_changed", untouched(st.path))
          \cup Clause("other_file_changed", others) \cup Clause("arguments_changed", st.argskept)
      ELSE IF ~there THEN Clause("absent_file_read", st.err # "")
      ELSE Clause("reading_changed_files", DOMAIN st.after = DOMAIN st.before /\ \A p \in DOMAIN st.before : untouched(p)) \cup
           (IF fs[st.path] = EmptyFile THEN {}
            ELSE IF st.err # "" THEN {"read_raised"}
            ELSE UNION {Clause(Cat("read_back:", IStr(j)), Exact(st.cols[j], ColsOf(fs[st.path])[j])) : j \in 1..3})
C13(e) ==
  IF Has(e, "solve")
  THEN Clause("solved_alkalinity", CloseNum(e.solve[1], R(e.solve[2]), R("1e-5"), Zero)) \cup Clause("npts", e.npts[1] = e.npts[2])
  ELSE UNION {{Cat(Cat(IStr(k), ":"), x) : x \in C13Step(e, k)} : k \in 1..Len(e.steps)}

\* ---- C14 ------------------------------------------------------------------
DefaultFormat == <<[fld |-> "s", w |-> 0], [lit |-> "-"], [fld |-> "c", w |-> 0], [lit |-> "  "], [fld |-> "n", w |-> 0],
                   [lit |-> "  ("], [fld |-> "d", w |-> 0], [lit |-> ")"], [fld |-> "b", w |-> 0], [lit |-> ".dat"]>>
NewName(c) == IF c = "run type" THEN "run_type" ELSE c
DbsLine(e, i) ==
  LET r == e.tab.rows[i]
      at(c) == CHOOSE k \in 1..Len(e.head) : e.head[k] = c
      cell(c) == e.lines[i][at(c)]
      run == cell("run type")
      date == cell("date") time == cell("time")
      when == DateOf(date, time)
      dated == date \notin NA /\ time \notin NA
      good == IF "file_good" \in SeqToSet(e.head) THEN cell("file_good") = "True" ELSE TRUE
      fmt == IF e.fmt = <<>> THEN DefaultFormat ELSE e.fmt
      val(c) == IF Has(r, c) THEN r[c] ELSE Null
      volume == IF Has(e.kw, "analyte_mass") THEN Null ELSE IF Has(e.kw, "analyte_volume") THEN e.kw["analyte_volume"] ELSE R("100")
      mass == IF Has(e.kw, "analyte_mass") THEN e.kw["analyte_mass"] ELSE Null
  IN  UNION {Clause(Cat("column:", c), Has(r, NewName(c)) /\ CellIs(r[NewName(c)], cell(c))
                                       /\ (c = "bottle" => IsStr(r[c]))) : c \in SeqToSet(e.head) \ {"file_good"}}
      \cup Clause("analysis_datetime", IF dated THEN SameCell(val("analysis_datetime"), when.iso) ELSE IsNull(val("analysis_datetime")))
      \cup Clause("analysis_datenum", IF dated THEN CloseNum(val("analysis_datenum"), when.num, Zero, R("1e-14")) ELSE IsNull(val("analysis_datenum")))
      \cup (CASE run = "bottle" ->
              Clause("file_name_bottle", SameCell(val("file_name"), Name(fmt, 1, [c \in SeqToSet(e.head) |-> cell(c)])))
              \cup Clause("file_good_bottle", SameCell(val("file_good"), good))
              \cup Clause("certified_bottle", IsNull(val("alkalinity_certified")))
            [] run = "CRM" ->
              (IF cell("batch") \in NA THEN {} ELSE Clause("file_name_CRM", SameCell(val("file_name"), CrmName(cell("batch"), cell("bottle")))))
              \cup Clause("file_good_CRM", SameCell(val("file_good"), good))
              \cup Clause("certified_CRM", CellIs(val("alkalinity_certified"), cell("cert. CRM AT")))
            [] OTHER ->
              Clause("file_name_other", IsNull(val("file_name")) \/ SameCell(val("file_name"), ""))
              \cup Clause("file_good_other", SameCell(val("file_good"), FALSE))
              \cup Clause("certified_other", IsNull(val("alkalinity_certified"))))
      \cup Clause("dbs_fname", SameCell(val("dbs_fname"), e.fname))
      \cup Clause("analyte_volume", SameCell(val("analyte_volume"), volume))
      \cup Clause("analyte_mass", SameCell(val("analyte_mass"), mass))
      \cup Clause("file_path", SameCell(val("file_path"), IF Has(e.kw, "file_path") THEN e.kw["file_path"] ELSE Null))
C14Dbs(e) ==
  Clause("rows", Len(e.tab.rows) = Len(e.lines)) \cup
  (IF Len(e.tab.rows) # Len(e.lines) THEN {}
   ELSE UNION {{Tag(x, i) : x \in DbsLine(e, i)} : i \in 1..Len(e.lines)}
        \cup Clause("index", \A i \in 1..Len(e.lines) : e.tab.index[i] = IStr(i - 1)))
C14Table(e) ==
  Clause("columns", e.tab.cols = e.ref.cols) \cup Clause("index", e.tab.index = e.ref.index) \cup Clause("dtypes", e.tab.dtypes = e.ref.dtypes)
  \cup (IF e.tab.cols # e.ref.cols \/ Len(e.tab.rows) # Len(e.ref.rows) THEN {"shape"}
        ELSE UNION {UNION {Clause(Tag(Cat("cell:", c), i), SameCell(e.tab.rows[i][c], e.ref.rows[i][c])) : c \in SeqToSet(e.ref.cols)} : i \in 1..Len(e.ref.rows)})
C14(e) ==
  IF e.err # "" THEN {"raised"}
  ELSE Clause("not_a_Dataset", e.isds) \cup Clause("file_changed", e.kept)
       \cup (IF Has(e, "lines") THEN C14Dbs(e) ELSE C14Table(e)) \cup Steps(e)
=============================================================================
