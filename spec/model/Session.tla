------------------------------- MODULE Session -----------------------------
(***************************************************************************)
(* A dataset over any history of operations, symbolically.  Numbers are    *)
(* descriptors of what they were computed from, so that "is computed from  *)
(* the current inputs" is equality of descriptors.                         *)
(*                                                                         *)
(* Table t: cols (the optional columns present), rows, disk (contents of   *)
(* the files).  Row: rid, file, sal, cert, fg (file_good), ref             *)
(* (reference_good), batch, so4 (total_sulfate), bor (total_borate), otb   *)
(* (opt_total_borate), win (pH_max), am (analyte_mass), vol                *)
(* (analyte_volume, used where there is no mass), tov                      *)
(* (temperature_override), dic, and                                        *)
(*   mol   titrant_molinity: {} null, {"m1"} the user's, or the set of     *)
(*         references (with their row ids) it is the mean of               *)
(*   here  titrant_molinity_here: {} or one descriptor                     *)
(*   res   results: {} null, or one <<inputs, molinity>>                   *)
(* Null cells are "-".                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Null == "-"
N(t) == Len(t.rows)
\* columns that are always there
Base == {"file", "sal", "cert", "am", "vol", "tov", "dic"}
NoKw == [so4 |-> Null, otb |-> Null, win |-> Null]

\* ---- what preparing fills in ------------------------------------------------
First(a, b) == IF a # Null THEN a ELSE b
SalS(sal) == "S" \o sal
SalB(sal, otb) == "B" \o sal \o otb
PrepRow(t, r, kw) ==
  LET otb == IF kw.otb = Null THEN First(r.otb, "1") ELSE r.otb
      so4 == IF kw.so4 = Null THEN First(r.so4, SalS(r.sal)) ELSE r.so4
      bor == IF kw.otb = Null THEN First(r.bor, SalB(r.sal, otb)) ELSE r.bor
      fg == IF "fg" \in t.cols THEN r.fg ELSE "T"
  IN  [r EXCEPT !.otb = otb, !.so4 = so4, !.bor = bor, !.fg = fg]
PrepCols(kw) == {"fg"} \cup (IF kw.otb = Null THEN {"otb", "bor"} ELSE {}) \cup (IF kw.so4 = Null THEN {"so4"} ELSE {})
\* (TLCEval: TLC would otherwise evaluate the rows again at every use)
Prep(t, kw) == TLCEval([t EXCEPT !.cols = @ \cup PrepCols(kw), !.rows = TLCEval([i \in 1..N(t) |-> TLCEval(PrepRow(t, t.rows[i], kw))])])

\* ---- effective inputs of a row ------------------------------------------------
Inputs(t, r, kw) ==
  << t.disk[r.file], r.sal, First(r.so4, First(kw.so4, SalS(r.sal))),
     First(r.bor, SalB(r.sal, First(r.otb, First(kw.otb, "1")))), First(r.win, First(kw.win, "default")),
     First(r.am, r.vol), r.tov, r.dic >>
\* (the file is there, and the amount of analyte is given)
Readable(t, r) == t.disk[r.file] # "gone" /\ First(r.am, r.vol) # Null
GoodFile(r) == r.fg # "F"

\* ---- operations ------------------------------------------------------------------
HereOf(t, r, kw) == IF r.cert # Null /\ GoodFile(r) /\ Readable(t, r) THEN {<<Inputs(t, r, kw), r.cert>>} ELSE {}
RefsOf(rows, b) == {j \in 1..Len(rows) : rows[j].batch = b /\ rows[j].here # {} /\ rows[j].ref = "T"}
MolOf(rows, r) ==
  IF r.batch = Null THEN {}
  ELSE {[user |-> Null, rid |-> rows[j].rid, here |-> CHOOSE h \in rows[j].here : TRUE] : j \in RefsOf(rows, r.batch)}
Solved(t, kw) ==
  LET p == Prep(t, kw) IN
  TLCEval(
  [p EXCEPT !.cols = @ \cup {"res"},
            !.rows = TLCEval([i \in 1..N(p) |->
               LET r == p.rows[i] IN
               [r EXCEPT !.res = IF r.mol # {} /\ GoodFile(r) /\ Readable(p, r) THEN {<<Inputs(p, r, kw), r.mol>>} ELSE {}]])])
Calibrated(t, kw) ==
  LET p == Prep(t, kw)
      h == TLCEval([i \in 1..N(p) |-> [p.rows[i] EXCEPT !.here = HereOf(p, p.rows[i], kw)]])
      b == TLCEval(IF "batch" \in p.cols THEN h ELSE [i \in 1..N(p) |-> [h[i] EXCEPT !.batch = "0"]])
      g == TLCEval(IF "ref" \in p.cols THEN b ELSE [i \in 1..N(p) |-> [b[i] EXCEPT !.ref = IF b[i].here # {} THEN "T" ELSE "F"]])
      m == TLCEval([i \in 1..N(p) |-> [g[i] EXCEPT !.mol = MolOf(g, g[i])]])
  IN  Solved([p EXCEPT !.cols = @ \cup {"batch", "ref", "mol", "here"}, !.rows = m], kw)
Calkulated(t, kw) == Solved(Calibrated(t, kw), kw)

\* ---- edits ---------------------------------------------------------------------
UserMol(v) == [user |-> v, rid |-> 0, here |-> << <<>>, Null >>]
SetCell(r, c, v) ==
  IF c = "mol" THEN [r EXCEPT !.mol = IF v = Null THEN {} ELSE {UserMol(v)}] ELSE [r EXCEPT ![c] = v]
Blank(r, c) == IF c \in {"mol", "here", "res"} THEN [r EXCEPT ![c] = {}] ELSE [r EXCEPT ![c] = Null]
\* a history is a sequence of these records
Op(op, kw) == [op |-> op, i |-> 0, col |-> "", val |-> "", kw |-> kw]
Edit(op, i, c, v) == [op |-> op, i |-> i, col |-> c, val |-> v, kw |-> NoKw]
\* (a new column is null elsewhere)
Apply(t, o) ==
  CASE o.op = "solve" -> Solved(t, o.kw)
    [] o.op = "calibrate" -> Calibrated(t, o.kw)
    [] o.op = "calkulate" -> Calkulated(t, o.kw)
    [] o.op = "set" -> [t EXCEPT !.rows[o.i] = SetCell(@, o.col, o.val), !.cols = @ \cup ({o.col} \ Base)]
    [] o.op = "drop" -> [t EXCEPT !.cols = @ \ {o.col}, !.rows = [i \in 1..N(t) |-> Blank(t.rows[i], o.col)]]
    [] o.op = "disk" -> [t EXCEPT !.disk[o.col] = o.val]
    [] o.op = "reverse" -> [t EXCEPT !.rows = [i \in 1..N(t) |-> t.rows[N(t) + 1 - i]]]
    [] o.op = "look" -> t
IsCalc(o) == o.op \in {"solve", "calibrate", "calkulate"}
\* solving needs the column; calibrating needs a batch that is not all null
Enabled(t, o) ==
  /\ o.op = "solve" => "mol" \in t.cols
  /\ o.op \in {"calibrate", "calkulate"} => ("batch" \in t.cols => \E i \in 1..N(t) : t.rows[i].batch # Null)
  /\ o.op = "drop" => o.col \in t.cols
  /\ (o.op = "set" /\ o.col \in {"ref", "fg"}) => o.col \in t.cols
=============================================================================
