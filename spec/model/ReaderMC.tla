------------------------------- MODULE ReaderMC ----------------------------
(***************************************************************************)
(* Reading line by line.  The PC LIMS reader as an automaton that sees one *)
(* line at a time (nothing found yet, in the block, past it) against the   *)
(* definition of the block as a whole; all sequences of kinds of lines.    *)
(***************************************************************************)
EXTENDS Reader
CONSTANT MaxLen
VARIABLES text, found, done, taken
vars == <<text, found, done, taken>>
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE Cat(s[1], Cat(sep, Join(SubSeq(s, 2, Len(s)), sep)))
\* D: data (six numerals), S: too few, W: a word among them, B: blank, T: tabs only, M: an empty field
LineText(c, n) ==
  LET v(k) == IStr((n * 10) + k) t == "\t" IN
  CASE c = "D" -> Join(<<v(1), v(2), v(3), v(4), v(5), v(6)>>, t)
    [] c = "S" -> Join(<<v(1), v(2), v(3), v(4), v(5)>>, t)
    [] c = "W" -> Join(<<v(1), v(2), "x", v(4), v(5), v(6)>>, t)
    [] c = "M" -> Join(<<v(1), "", v(3), v(4), v(5), v(6)>>, t)
    [] c = "T" -> "\t\t\t\t\t\t\t" [] OTHER -> ""
Kinds == {"D", "S", "W", "M", "T", "B"}
Init == text = <<>> /\ found = FALSE /\ done = FALSE /\ taken = <<>>
Next == Len(text) < MaxLen /\ \E k \in Kinds :
  /\ text' = Append(text, k)
  /\ IF done THEN UNCHANGED <<found, done, taken>>
     ELSE IF k = "D" THEN found' = TRUE /\ taken' = Append(taken, Len(text) + 1) /\ UNCHANGED done
     ELSE done' = found /\ UNCHANGED <<found, taken>>
Spec == Init /\ [][Next]_vars
Whole == Join([i \in 1..Len(text) |-> Cat(LineText(text[i], i), "\n")], "")
got == ReadPclims(Whole, [file_type |-> "pclims"])
Same == IF taken = <<>> THEN ~got.ok
        ELSE LET g == got IN g.ok /\ Len(g.amount) = Len(taken) /\ \A i \in 1..Len(taken) :
               g.amount[i] = R((taken[i] * 10) + 2) /\ g.measurement[i] = R((taken[i] * 10) + 3) /\ g.temperature[i] = R((taken[i] * 10) + 6)
\* one block, in order, all data
Block == /\ \A i \in 1..Len(taken) : text[taken[i]] = "D"
         /\ \A i \in 1..(Len(taken) - 1) : taken[i + 1] = taken[i] + 1
         /\ taken # <<>> => \A i \in 1..(taken[1] - 1) : text[i] # "D"
\* the same lines as a delimited file without a header: every non-blank line counts, one of another length
\* spoils it, and a cell without a number is missing, not a number
plain == ReadDelimited(Whole, [skip_header |-> 0, col_titrant_amount |-> 1, col_measurement |-> 2, col_temperature |-> 5])
Delimited == LET nb == SelectSeq(text, LAMBDA k : k \notin {"B", "T"}) IN
  IF Len(nb) > 0 /\ \A i \in 1..Len(nb) : nb[i] # "S"
  THEN LET q == plain IN q.ok /\ Len(q.amount) = Len(nb) /\ \A i \in 1..Len(nb) :
         RIsNaN(q.amount[i]) = (nb[i] = "M") /\ RIsNaN(q.measurement[i]) = (nb[i] = "W") /\ ~RIsNaN(q.temperature[i])
  ELSE ~plain.ok
Inv == Same /\ Block /\ Delimited
=============================================================================
