------------------------------- MODULE PlotGen -----------------------------
(* Scenarios for plots: Titrations (as in TitGen) and tables of results.    *)
EXTENDS TitGen

Row0(m, n) == [Plain EXCEPT !.mode = m, !.noise = "small"]
TitPlot(c, dup, k) == [kind |-> "titplot", tit |-> c, dup |-> dup, rep |-> k]
WindowCells == {"none", "min_null", "max_null", "both_null", "given"}
C20Tit == {[TitPlot(Case(<<Row0(m, 0), RandRun(Modes)>>, RandomElement(Made), RandomElement(Via), RandomElement(IndexKinds), "none", o, 0), d, 0)
             EXCEPT !.rep = w] : m \in Modes, d \in {"none", "repeat"}, o \in {"none", "window", "total", "several"}, w \in WindowCells}
C20TitRand == {TitPlot(Case([i \in 1..RandomElement(1..2) |-> RandRun(Modes)], RandomElement(Made), RandomElement(Via), RandomElement(IndexKinds),
                 "none", RandomElement({"none", "window", "mode", "several"}), k), RandomElement({"none", "repeat"}), RandomElement(WindowCells)) : k \in 1..Pickn(24, 600)}
\* tables: what the plots of a dataset look at
Cells == [batch : {"A", "B", "C", "D", "E", "F", ""}, ref : {"T", "F", "null"}, here : BOOLEAN, offset : BOOLEAN]
DsPlot(rows, fn, xv, bad, bat, refcol, lab, ix, file, k) ==
  [kind |-> "dsplot", rows |-> rows, fn |-> fn, xvar |-> xv, bad |-> bad, batches |-> bat, refcol |-> refcol, label |-> lab, index |-> ix, file |-> file, rep |-> k]
C20Ds == {LET f == RandomElement({"bool", "nullable", "object", "null"} \cup (IF s = "FALSE" THEN {"absent"} ELSE {})) IN
          DsPlot([i \in 1..RandomElement(1..16) |-> RandomElement(Cells)], fn, x, b, s, f,
                 RandomElement({"int", "str", "float", "date"}), RandomElement({"default", "str", "shuffled", "dup", "date"}), RandomElement(BOOLEAN), k) :
            fn \in {"titrant_molinity", "alkalinity_offset"}, x \in {"none", "number", "date", "int"}, b \in {"default", "TRUE", "FALSE"}, s \in {"default", "TRUE", "FALSE"}, k \in 1..Pickn(3, 40)}
C20Loss == {[kind |-> "lossplot", fn |-> f, n |-> n, split |-> p, rep |-> k] : f \in {"dic_loss", "fCO2_loss"}, n \in {6, 14}, p \in {5, 6}, k \in 1..Pickn(2, 20)}
C20S == Sample(Pickn(70, 100000), C20Tit) \cup C20TitRand \cup C20Ds \cup C20Loss
=============================================================================
