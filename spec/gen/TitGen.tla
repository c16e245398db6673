------------------------------- MODULE TitGen ------------------------------
(* Scenarios for Titration objects and their plots: a dataset of one to     *)
(* three rows, each a titration of RunGen, and one row made a Titration.    *)
EXTENDS RunGen

\* how the Titration is made: from a solved or a fresh dataset, by which call
Made == {"solved", "calibrated", "fresh"}
Via == {"method", "function", "class"}
IndexKinds == {"default", "str", "shuffled", "float", "date", "multi"}
Paths == {"none", "column", "null", "kwarg"}
\* kwargs that override the row
Overrides == {"none", "window", "mode", "normality", "molinity", "mass", "volume", "unit", "total", "dic", "constant",
              "opt_k", "solute", "temperature", "pH_range", "read_dat_method", "read_dat_kwargs", "skip_header",
              "file_name", "salinity", "double", "gran_logic", "emf0_init", "several"}
Case(rows, how, via, ix, path, over, k) ==
  [kind |-> "tit", rows |-> rows, how |-> how, via |-> via, index |-> ix, path |-> path, over |-> over, rep |-> k]
OneRow(s, over) == Case(<<s>>, RandomElement(Made), RandomElement(Via), RandomElement(IndexKinds), RandomElement(Paths), over, 0)
\* every single deviation of a titration, as it is
C15Singles == {OneRow([s EXCEPT !.noise = "small"], "none") : s \in Singles(Modes, "small")}
\* every override in every mode
C15Over == {Case(<<[Plain EXCEPT !.mode = m, !.noise = "small"], RandRun(Modes)>>, h, RandomElement(Via), RandomElement(IndexKinds),
                 RandomElement(Paths), o, 0) : m \in Modes, h \in Made, o \in Overrides}
C15Via == {Case(<<[Plain EXCEPT !.noise = "small", !.mode = m]>>, h, v, x, p, "none", 0) :
             h \in Made, v \in Via, x \in IndexKinds, p \in Paths, m \in {"emf", "pH"}}
C15Rand == {Case([i \in 1..RandomElement(1..3) |-> RandRun(Modes)], RandomElement(Made), RandomElement(Via), RandomElement(IndexKinds),
                 RandomElement(Paths), RandomElement(Overrides \cup {"none"}), k) : k \in 1..Pickn(60, 2500)}
C15S == Sample(Pickn(150, 100000), C15Singles) \cup Sample(Pickn(160, 100000), C15Over) \cup Sample(Pickn(30, 100000), C15Via) \cup C15Rand
=============================================================================
