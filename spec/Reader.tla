------------------------------- MODULE Reader ------------------------------
(***************************************************************************)
(* Titration files: what a text means under the reading options c.         *)
(* Result: [ok, amount, measurement, temperature].                         *)
(***************************************************************************)
EXTENDS Vec

Bad == [ok |-> FALSE, amount |-> <<>>, measurement |-> <<>>, temperature |-> <<>>]
\* rows: sequence of sequences of numerals; columns counted from 0
Columns(rows, ca, cm, ct) ==
  LET col(k) == Tab(Len(rows), LAMBDA i : R(Trim(rows[i][k + 1])))
      fits == \A i \in 1..Len(rows) : \A k \in {ca, cm, ct} :
                k + 1 <= Len(rows[i]) /\ IsNumeral(rows[i][k + 1])
  IN  IF Len(rows) > 0 /\ fits THEN [ok |-> TRUE, amount |-> col(ca), measurement |-> col(cm), temperature |-> col(ct)]
      ELSE Bad
\* a cell that holds no number is a missing value, never a number
Cells(rows, ca, cm, ct) ==
  LET cell(r, k) == IF IsNumeral(r[k + 1]) THEN R(Trim(r[k + 1])) ELSE R("NaN")
      col(k) == Tab(Len(rows), LAMBDA i : cell(rows[i], k))
      fits == \A i \in 1..Len(rows) : \A k \in {ca, cm, ct} : k + 1 <= Len(rows[i])
  IN  IF Len(rows) > 0 /\ fits THEN [ok |-> TRUE, amount |-> col(ca), measurement |-> col(cm), temperature |-> col(ct)]
      ELSE Bad
ROpt(c, k, d) == IF Has(c, k) THEN c[k] ELSE d
IntOf(x) == RFloor(R(x))
SubFrom(s, k) == SubSeq(s, k, Len(s))

\* delimited columns after a header
ReadDelimited(text, c) ==
  LET ls == Lines(text)
      skip == IntOf(ROpt(c, "skip_header", 2))
      body == SelectSeq(SubFrom(ls, skip + 1), LAMBDA x : Trim(x) # "")
      d == ROpt(c, "delimiter", "\t")
      rows == TLCEval([i \in 1..Len(body) |-> Split(body[i], d)])
      \* a file with lines of different lengths is not a table
      table == \A i \in 1..Len(rows) : Len(rows[i]) = Len(rows[1])
  IN  IF skip >= Len(ls) \/ ~table THEN Bad
      ELSE Cells(rows, IntOf(ROpt(c, "col_titrant_amount", 0)), IntOf(ROpt(c, "col_measurement", 1)),
                   IntOf(ROpt(c, "col_temperature", 2)))

\* PC LIMS report: the first block of lines with n_cols tab-separated numerals
ReadPclims(text, c) ==
  LET ls == Lines(text)
      n == IntOf(ROpt(c, "n_cols", 6))
      rows == TLCEval([i \in 1..Len(ls) |-> Split(ls[i], "\t")])
      isData == TLCEval([i \in 1..Len(ls) |-> Len(rows[i]) >= n /\ \A j \in 1..n : IsNumeral(rows[i][j])])
      first == CHOOSE i \in 1..Len(ls) : isData[i] /\ \A j \in 1..(i - 1) : ~isData[j]
      RECURSIVE last(_)
      last(i) == IF i < Len(ls) /\ isData[i + 1] THEN last(i + 1) ELSE i
  IN  IF \A i \in 1..Len(ls) : ~isData[i] THEN Bad
      ELSE Columns(SubSeq(rows, first, last(first)), IntOf(ROpt(c, "col_titrant_amount", 1)),
                   IntOf(ROpt(c, "col_measurement", 2)), IntOf(ROpt(c, "col_temperature", 5)))

\* German Tiamo export: a table by column names after the line "Gran.1"; the
\* starting volume is the third field three lines before it
ReadTiamo(text, c) ==
  LET ls == Lines(text)
      at == {i \in 1..Len(ls) : ls[i] = "Gran.1"}
      g == CHOOSE i \in at : \A j \in at : i <= j
      v0 == R(Trim(Split(ls[g - 3], ";")[3]))
      head == TLCEval(Split(ls[g + 1], ";"))
      body == SelectSeq(SubFrom(ls, g + 2), LAMBDA x : Trim(x) # "")
      rows == TLCEval([i \in 1..Len(body) |-> Split(body[i], ";")])
      pos(name) == CHOOSE k \in 1..Len(head) : StartsWith(Trim(head[k]), name)
      raw == Cells(rows, pos("Volumen [mL]") - 1, pos("Messwert") - 1, pos("Temperatur [") - 1)
  IN  IF at = {} THEN Bad
      ELSE [raw EXCEPT !.amount = Map(raw.amount, LAMBDA x : x \oplus v0)]

KnownTypes == {"genfromtxt", "vindta", "pclims", "tiamo_de", "orgalk_excel"}
\* enc: the encoding the file needs ("": any)
Decodes(enc, c) == IF enc = "" THEN ROpt(c, "encoding", "") # "utf-16" ELSE ROpt(c, "encoding", "") = enc
Read(file, c) ==
  LET text == file.text
      ft == ROpt(c, "file_type", "genfromtxt") IN
  IF ~Decodes(file.enc, c) THEN Bad ELSE
  CASE ft = "pclims" -> ReadPclims(text, c)
    [] ft = "tiamo_de" -> ReadTiamo(text, c)
    [] OTHER -> ReadDelimited(text, c)      \* genfromtxt, vindta, unknown
=============================================================================
