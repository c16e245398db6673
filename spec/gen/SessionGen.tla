----------------------------- MODULE SessionGen ----------------------------
(* Histories of a dataset, as sequences of Session's operations.            *)
EXTENDS GenBase
S == INSTANCE Session

Kws == {S!NoKw, [S!NoKw EXCEPT !.so4 = "k"], [S!NoKw EXCEPT !.otb = "2"], [S!NoKw EXCEPT !.win = "k"],
        [so4 |-> "k", otb |-> "2", win |-> "k"]}
Cells == {<<"file", "A">>, <<"file", "B">>, <<"file", "G">>, <<"sal", "s1">>, <<"sal", "s2">>, <<"cert", S!Null>>, <<"cert", "c1">>, <<"cert", "c2">>,
          <<"so4", "u">>, <<"so4", "z">>, <<"bor", "z">>, <<"am", "a1">>, <<"am", "a2">>, <<"am", S!Null>>, <<"vol", "v1">>, <<"vol", "v2">>, <<"vol", S!Null>>,
          <<"tov", "t">>, <<"tov", S!Null>>, <<"dic", "d1">>, <<"dic", "d2">>, <<"so4", S!Null>>, <<"bor", "u">>, <<"bor", S!Null>>, <<"otb", "2">>, <<"otb", S!Null>>, <<"win", "u">>, <<"win", S!Null>>,
          <<"mol", "m1">>, <<"mol", "m2">>, <<"mol", S!Null>>, <<"ref", "F">>, <<"ref", "T">>, <<"fg", "F">>, <<"fg", "T">>,
          <<"batch", "0">>, <<"batch", "1">>, <<"batch", S!Null>>}
Calcs == {S!Op(o, k) : o \in {"solve", "calibrate", "calkulate"}, k \in Kws}
PlainCalcs == {S!Op(o, S!NoKw) : o \in {"solve", "calibrate", "calkulate"}}
Sets(n) == {S!Edit("set", i, c[1], c[2]) : i \in 1..n, c \in Cells}
Others == {S!Edit("drop", 0, c, "") : c \in {"ref", "batch", "so4", "bor", "otb", "fg", "mol"}}
          \cup {S!Edit("disk", 0, f, v) : f \in {"A", "B"}, v \in {"v2", "gone"}}
          \cup {S!Edit("reverse", 0, "", ""), S!Edit("look", 1, "", "")}

\* initial tables
Row(i, x) == [rid |-> i, file |-> RandomElement({"A", "B"}), sal |-> RandomElement({"s1", "s2"}), cert |-> RandomElement({S!Null, "c1", "c2"}),
              fg |-> RandomElement({"T", "T", "F"}), ref |-> RandomElement({"T", "F"}), batch |-> RandomElement({"0", "1"}),
              so4 |-> RandomElement({S!Null, "u", "z"}), bor |-> RandomElement({S!Null, "u", "z"}), otb |-> RandomElement({S!Null, "2"}),
              win |-> RandomElement({S!Null, "u"}), am |-> RandomElement({S!Null, "a1", "a2"}), vol |-> RandomElement({S!Null, "v1", "v2"}),
              tov |-> RandomElement({S!Null, "t"}), dic |-> RandomElement({"d1", "d2"}), mol |-> RandomElement({S!Null, "m1", "m2"}), here |-> {}, res |-> {}]
AllCols == {"fg", "ref", "batch", "so4", "bor", "otb", "win", "mol"}
\* cells of absent columns are null
Init(n, cs) ==
  [cols |-> cs,
   rows |-> [i \in 1..n |-> LET r == Row(i, cs) IN [f \in DOMAIN r |-> IF f \in AllCols \ cs THEN S!Null ELSE r[f]]]]
Table(x) == [cols |-> x.cols, disk |-> [A |-> "v1", B |-> "w1", G |-> "gone"],
             rows |-> [i \in 1..Len(x.rows) |-> S!SetCell([x.rows[i] EXCEPT !.mol = {}], "mol", x.rows[i].mol)]]
Simple(n) == [Init(n, {"mol"}) EXCEPT !.rows = [i \in 1..n |-> [Row(i, n) EXCEPT !.cert = IF i = 1 THEN "c1" ELSE S!Null, !.fg = S!Null, !.ref = S!Null,
                 !.batch = S!Null, !.so4 = S!Null, !.bor = S!Null, !.otb = S!Null, !.win = S!Null,
                 !.am = IF i = 1 THEN "a1" ELSE S!Null, !.vol = "v1", !.tov = S!Null, !.dic = "d1", !.mol = IF i = 2 THEN "m1" ELSE S!Null]]]
\* the history with the operations that are not possible left out
RECURSIVE Legal(_, _, _)
Legal(t, h, k) ==
  IF k > Len(h) THEN <<>>
  ELSE IF S!Enabled(t, h[k]) THEN <<h[k]>> \o Legal(S!Apply(t, h[k]), h, k + 1) ELSE Legal(t, h, k + 1)
Case(x, h, mode, api, k) == [kind |-> "history", init |-> x, hist |-> Legal(Table(x), h, 1), mode |-> mode, api |-> api, rep |-> k]
Modes == {"pH", "pH", "pH_gran", "emf", "pH_adjust"}
Cheap(k) == RandomElement({"pH", "pH_gran"})
\* every calculation, one edit, every calculation
Triples == {<<a, b, c>> : a \in PlainCalcs, b \in Sets(2) \cup Others, c \in PlainCalcs}
KwPairs == {<<a, c>> : a \in Calcs, c \in Calcs}
\* random histories: calculations and edits alternate irregularly
AnyOp(n, k) == LET w == RandomElement(1..8) IN
  IF w <= 3 THEN RandomElement(Calcs) ELSE IF w <= 4 THEN RandomElement(PlainCalcs) ELSE IF w <= 7 THEN RandomElement(Sets(n)) ELSE RandomElement(Others)
RandHist(n, len, x) == [k \in 1..len |-> IF k = len THEN RandomElement(Calcs) ELSE AnyOp(n, k)]
C08Triples(x) == {Case(Simple(2), h, Cheap(h), "method", 0) : h \in Sample(Pickn(540, 100000), Triples)}
C08Kw(x) == {Case(Simple(2), h, Cheap(h), "method", 0) : h \in Sample(Pickn(100, 100000), KwPairs)}
C08Rand(x) == {LET n == RandomElement(2..4) IN
               Case(Init(n, RandomSubset(RandomElement(0..8), AllCols)), RandHist(n, RandomElement(5..8), k),
                    RandomElement(Modes), RandomElement({"method", "function"}), k) : k \in 1..Pickn(260, 3000)}
C08S == {s \in C08Triples(0) \cup C08Kw(0) \cup C08Rand(0) : \E k \in 1..Len(s.hist) : S!IsCalc(s.hist[k])}
=============================================================================
