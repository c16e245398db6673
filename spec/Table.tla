-------------------------------- MODULE Table ------------------------------
(***************************************************************************)
(* Datasets.  A table is [cols |-> sequence of names, rows |-> sequence of *)
(* functions from names to cells]; Null marks null cells.  The operators   *)
(* say what calibrate/solve must leave in it, apart from the numbers.      *)
(***************************************************************************)
EXTENDS Options

SeqToSet(s) == {s[i] : i \in 1..Len(s)}
HasCol(t, c) == c \in SeqToSet(t.cols)
Cell(row, c) == IF Has(row, c) THEN row[c] ELSE Null

Salts == {"total_borate", "total_fluoride", "total_sulfate"}
Given(kw, k) == Has(kw, k) /\ ~IsNull(kw[k])
SaltsFilled(kw) == {s \in Salts : ~Given(kw, s) /\ (s # "total_borate" \/ ~Given(kw, "opt_total_borate"))}
\* columns that preparing makes sure of
PrepCols(t, kw) ==
  (IF Given(kw, "opt_total_borate") THEN {} ELSE {"opt_total_borate"})
  \cup SaltsFilled(kw) \cup {"analyte_mass", "file_good"}
\* the cell after preparing; salt: what PyCO2SYS says for the row
PrepCell(t, i, kw, salt, c) ==
  LET v == Cell(t.rows[i], c) IN
  IF c = "file_good" THEN (IF HasCol(t, "file_good") THEN v ELSE TRUE)
  ELSE IF ~IsNull(v) THEN v
  ELSE CASE c = "opt_total_borate" /\ ~Given(kw, c) -> 1
         [] c \in SaltsFilled(kw) -> salt[c]
         [] c = "titrant_amount_unit" /\ HasCol(t, c) /\ ~Given(kw, c) -> "ml"
         [] OTHER -> Null
Prepared(t, kw, salts) ==
  LET cs == SeqToSet(t.cols) \cup PrepCols(t, kw) IN
  TLCEval([i \in 1..Len(t.rows) |-> [c \in cs |-> PrepCell(t, i, kw, salts[i], c)]])

Truthy(v) == IF IsBool(v) THEN v ELSE IF IsNull(v) THEN TRUE ELSE ~(R(v) = Zero)
GoodFile(row) == Truthy(row["file_good"])
Calibrates(row) == ~IsNull(Cell(row, "alkalinity_certified")) /\ GoodFile(row)
Solves(row) == ~IsNull(Cell(row, "titrant_molinity")) /\ GoodFile(row)

\* rows: after calibration (with here, batch and reference_good columns)
Batch(row) == row["analysis_batch"]
IsRef(row) == ~IsNull(row["titrant_molinity_here"]) /\ ~IsNull(row["reference_good"]) /\ Truthy(row["reference_good"])
GoodRefs(rows, i) ==
  IF IsNull(Batch(rows[i])) THEN <<>>
  ELSE SelectSeq([j \in 1..Len(rows) |-> j],
         LAMBDA j : SameCell(Batch(rows[j]), Batch(rows[i])) /\ IsRef(rows[j]))

CalCols == {"titrant_molinity_here", "analysis_batch", "reference_good", "titrant_molinity"}
ResultCols == {"alkalinity_npts", "alkalinity_std", "alkalinity", "emf0", "gran_alkalinity", "gran_emf0", "pH_init",
               "temperature_init"}
\* columns an operation may add
NewCols(t, op, kw) ==
  PrepCols(t, kw) \cup ResultCols
  \cup (IF op = "solve" THEN {} ELSE CalCols)
  \cup (IF HasCol(t, "alkalinity_certified") THEN {"alkalinity_offset"} ELSE {})
\* columns an operation may change besides filling blanks
OutCols(op) == ResultCols \cup {"alkalinity_offset"} \cup (IF op = "solve" THEN {} ELSE {"titrant_molinity_here", "titrant_molinity"})
=============================================================================
