------------------------------- MODULE BatchMC -----------------------------
(* References of batches: every table of three rows.                        *)
EXTENDS Table
VARIABLES rows
vars == <<rows>>
Kinds == [analysis_batch : {"A", "B", Null}, here : BOOLEAN, ref : {"T", "F", "null"}]
Cells(k) == [analysis_batch |-> k.analysis_batch, titrant_molinity_here |-> IF k.here THEN "m" ELSE Null,
             reference_good |-> IF k.ref = "null" THEN Null ELSE k.ref = "T"]
Init == rows = <<>>
Next == Len(rows) < 3 /\ \E k \in Kinds : rows' = Append(rows, k)
Spec == Init /\ [][Next]_vars
N == Len(rows)
t == TLCEval([i \in 1..N |-> Cells(rows[i])])
G(i) == SeqToSet(GoodRefs(t, i))
\* only calibrated rows marked good, of the row's own batch, each once, in order
Sound == \A i \in 1..N : LET g == GoodRefs(t, i) IN
  /\ \A j \in 1..Len(g) : rows[g[j]].here /\ rows[g[j]].ref = "T" /\ rows[g[j]].analysis_batch = rows[i].analysis_batch
  /\ \A j \in 1..(Len(g) - 1) : g[j] < g[j + 1]
Complete == \A i \in 1..N, j \in 1..N : (rows[j].here /\ rows[j].ref = "T" /\ rows[j].analysis_batch = rows[i].analysis_batch /\ rows[i].analysis_batch # Null) => j \in G(i)
\* rows of one batch have the same references, rows of different batches none in common, rows without a batch none
Partition == \A i \in 1..N, j \in 1..N :
  IF rows[i].analysis_batch = Null THEN G(i) = {}
  ELSE IF rows[i].analysis_batch = rows[j].analysis_batch THEN G(i) = G(j) ELSE G(i) \cap G(j) = {}
\* a row that is no reference, and the rows of other batches, change nothing
Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Irrelevant == \A i \in 1..N, j \in 1..N : (i # j /\ j \notin G(i)) =>
  Len(GoodRefs(Without(t, j), IF j < i THEN i - 1 ELSE i)) = Len(GoodRefs(t, i))
Inv == Sound /\ Complete /\ Partition /\ Irrelevant
=============================================================================
