-------------------------------- MODULE Dbs --------------------------------
(***************************************************************************)
(* VINDTA .dbs tables: what each line of the text means.                   *)
(***************************************************************************)
EXTENDS Vec, Options

\* texts that pandas takes for missing values
NA == {"", "NaN", "nan", "NA", "N/A", "NULL", "null", "None"}
\* a cell of the table that was read against the text it was read from
CellIs(v, text) ==
  IF text \in NA THEN IsNull(v)
  ELSE \/ IsStr(v) /\ v = text
       \/ IsNumeral(text) /\ IsReal(v) /\ R(v) = R(Trim(text))
\* days from 1970-01-01 to a date of the proleptic Gregorian calendar
Days(y0, m, d) ==
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      era == y \div 400
      yoe == y - (era * 400)
      doy == ((153 * (m + (IF m > 2 THEN -3 ELSE 9)) + 2) \div 5) + d - 1
      doe == (yoe * 365) + (yoe \div 4) - (yoe \div 100) + doy
  IN  (era * 146097) + doe - 719468
ToInt(s) == RFloor(R(s))
\* date mm/dd/yy and time HH:MM
DateOf(dt, tm) ==
  LET p == Split(dt, "/") q == Split(tm, ":") IN
  [iso |-> Cat(Cat(Cat("20", p[3]), Cat(Cat("-", p[1]), Cat("-", p[2]))), Cat("T", Cat(tm, ":00"))),
   num |-> R(Days(2000 + ToInt(p[3]), ToInt(p[1]), ToInt(p[2]))) \oplus ((R(60 * ToInt(q[1]) + ToInt(q[2]))) \oslash R("1440"))]
\* file names; pieces of the format: [lit |-> text] or [fld |-> s|c|n|d|b, w |-> digits]
Field == "s" :> "station" @@ "c" :> "cast" @@ "n" :> "niskin" @@ "d" :> "depth"
\* cell: function from columns to texts
Piece(p, cell) ==
  IF Has(p, "lit") THEN p.lit
  ELSE IF p.fld = "b" THEN cell["bottle"]
  ELSE RIntStr(R(Trim(cell[Field[p.fld]])), p.w)
RECURSIVE Name(_, _, _)
Name(ps, i, cell) == IF i > Len(ps) THEN "" ELSE Cat(Piece(ps[i], cell), Name(ps, i + 1, cell))
CrmName(batch, bottle) == Cat("CRM", Cat(Cat(IF IsNumeral(batch) THEN RIntStr(R(Trim(batch)), 0) ELSE batch, bottle), ".dat"))
=============================================================================
