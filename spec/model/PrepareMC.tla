------------------------------ MODULE PrepareMC ----------------------------
(* Preparing a dataset: every combination of one row's relevant cells and   *)
(* kwargs, beside a row that is complete.                                   *)
EXTENDS Table
VARIABLES cells, kw
vars == <<cells, kw>>
Cs == {"opt_total_borate", "total_borate", "total_sulfate", "file_good", "titrant_amount_unit"}
St == {"absent", "null", "value"}
Init == cells \in [Cs -> St] /\ kw = {"?"}
Next == kw = {"?"} /\ kw' \in SUBSET {"opt_total_borate", "total_borate", "total_sulfate", "titrant_amount_unit", "pH_max"} /\ UNCHANGED cells
Spec == Init /\ [][Next]_vars
Ready == kw # {"?"}
Val(c) == CASE c = "opt_total_borate" -> 2 [] c = "total_borate" -> R("411") [] c = "total_sulfate" -> R("25000") [] c = "file_good" -> FALSE [] OTHER -> "g"
Kw == [c \in kw |-> IF c = "pH_max" THEN R("4") ELSE Val(c)]
cols == <<"salinity">> \o SelectSeq(<<"opt_total_borate", "total_borate", "total_sulfate", "file_good", "titrant_amount_unit">>, LAMBDA c : cells[c] # "absent")
Row1 == [c \in SeqToSet(cols) |-> IF c = "salinity" THEN R("33") ELSE IF cells[c] = "value" THEN Val(c) ELSE Null]
Row2 == [c \in SeqToSet(cols) |-> IF c = "salinity" THEN R("35") ELSE Val(c)]
T == [cols |-> cols, rows |-> <<Row1, Row2>>]
salts == << [total_borate |-> R("390"), total_fluoride |-> R("65"), total_sulfate |-> R("26600")],
            [total_borate |-> R("415"), total_fluoride |-> R("70"), total_sulfate |-> R("28200")] >>
p == Prepared(T, Kw, salts)
Again(q) == [cols |-> cols \o SelectSeq(<<"opt_total_borate", "total_borate", "total_fluoride", "total_sulfate", "file_good", "analyte_mass">>,
                                        LAMBDA c : c \in DOMAIN q[1] /\ c \notin SeqToSet(cols)), rows |-> q]
\* what the user supplied is never replaced
Kept == Ready => \A i \in 1..2 : \A c \in SeqToSet(cols) : ~IsNull(T.rows[i][c]) => SameCell(p[i][c], T.rows[i][c])
\* preparing again changes nothing
Once == Ready => LET q == p r == Prepared(Again(q), Kw, salts) IN
  /\ DOMAIN r[1] = DOMAIN q[1] /\ \A i \in 1..2 : \A c \in DOMAIN q[i] : SameCell(r[i][c], q[i][c])
\* a kwarg for a salt is not hidden by a value made up from the salinity
Visible == Ready => \A c \in Salts \cap kw : LET e == Effective(p[1], Kw) IN
  IF cells[c] = "value" THEN SameCell(e[c], Val(c)) ELSE SameCell(e[c], Kw[c])
\* made-up values are the row's own
Own == Ready => \A c \in SaltsFilled(Kw) : (c \notin SeqToSet(cols) \/ cells[c] = "null") => SameCell(p[1][c], salts[1][c])
Rows == Ready => LET q == Prepared([T EXCEPT !.rows = <<Row1>>], Kw, <<salts[1]>>) IN \A c \in DOMAIN q[1] : SameCell(q[1][c], p[1][c])
Inv == Kept /\ Once /\ Visible /\ Own /\ Rows
=============================================================================
