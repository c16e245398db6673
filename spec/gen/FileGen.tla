------------------------------ MODULE FileGen ------------------------------
(* Scenarios for files: readers (C12), write_dat (C13), tables (C14).       *)
EXTENDS GenBase

\* ---- C12 ------------------------------------------------------------------
Style == {"plain", "exp", "sign", "int", "pad", "long", "dot"}
DelimBase == [kind |-> "delim", ft |-> "default", delim |-> "tab", skip |-> 2, head |-> "text", order |-> <<0, 1, 2>>, ncol |-> 3,
              style |-> "plain", eol |-> "lf", tail |-> "none", mid |-> FALSE, n |-> 8, extra |-> "num", enc |-> "", explicit |-> FALSE, rows |-> "any", gap |-> "none", rep |-> 0]
Orders == {<<0, 1, 2>>, <<2, 0, 1>>, <<1, 2, 0>>, <<2, 1, 0>>, <<3, 1, 4>>, <<0, 5, 3>>, <<4, 5, 2>>}
NcolOf(o) == IF o \in {<<3, 1, 4>>, <<0, 5, 3>>, <<4, 5, 2>>} THEN 6 ELSE 3
Dims == [ft |-> {"default", "genfromtxt", "vindta", "unknown", "pclim", "Vindta"}, delim |-> {"tab", ",", ";", "|", " "}, skip |-> {0, 1, 2, 4},
         head |-> {"text", "numbers", "hash", "blank", "unicode"}, order |-> Orders, style |-> Style, eol |-> {"lf", "crlf"},
         tail |-> {"none", "nonl", "blanks"}, mid |-> BOOLEAN, n |-> {1, 2, 3, 8, 40, 700}, extra |-> {"num", "text", "empty"},
         enc |-> {"", "utf-8", "latin-1", "utf-16"}, explicit |-> BOOLEAN,
         rows |-> {"any", "twice", "same", "down", "short", "long", "zeros"}, gap |-> {"none", "cell", "word", "nan"}]
WithOrder(s) == [s EXCEPT !.ncol = IF NcolOf(s.order) = 6 THEN 6 ELSE IF s.extra = "num" THEN 3 ELSE 4]
\* every value of every dimension, every pair of values of two dimensions (random third)
One == UNION {{WithOrder([DelimBase EXCEPT ![d] = v]) : v \in Dims[d]} : d \in DOMAIN Dims}
Pairs == UNION {UNION {{WithOrder([[DelimBase EXCEPT ![d] = v] EXCEPT ![f] = w]) : v \in Dims[d], w \in Dims[f]} : d \in DOMAIN Dims} : f \in DOMAIN Dims}
RandDelim(k) == WithOrder([d \in DOMAIN DelimBase |-> IF d \in DOMAIN Dims THEN RandomElement(Dims[d]) ELSE IF d = "rep" THEN k ELSE DelimBase[d]])
Delims == Sample(Pickn(350, 2000), Pairs) \cup One \cup {RandDelim(k) : k \in 1..Pickn(150, 3000)}
Pclims == {[kind |-> "pclims", ncols |-> c, opt |-> o, order |-> q, before |-> b, after |-> a, n |-> n, eol |-> e, neg |-> g, rows |-> r] :
             c \in {4, 6, 7}, o \in BOOLEAN, q \in {<<1, 2, 5>>, <<0, 3, 2>>, <<2, 1, 3>>}, b \in {"none", "report", "tabs", "few", "path"},
             a \in {"none", "report", "block", "tabs", "nonl"}, n \in {1, 2, 12}, e \in {"lf", "crlf"}, g \in BOOLEAN, r \in {"any", "twice", "same"}}
Tiamo == {[kind |-> "tiamo", cols |-> c, before |-> b, tail |-> t, n |-> n, enc |-> e, v0 |-> v, style |-> s, gap |-> g, rows |-> r] :
            c \in {"usual", "moved", "few"}, b \in {"none", "sections", "numbers"}, t \in {"none", "nonl", "blanks"}, n \in {1, 2, 15},
            e \in {"", "latin-1", "utf-8", "cp1252"}, v \in {"zero", "some", "int"}, s \in {"long", "int", "exp"}, g \in {"none", "unused", "used"}, r \in {"any", "twice", "same"}}
\* every sequence of kinds of lines with a line of data in it (see model/ReaderMC)
LineKinds == {"D", "S", "W", "M", "T", "B"}
Plines == {[kind |-> "plines", lines |-> q] : q \in {x \in UNION {[1..n -> LineKinds] : n \in 1..Pickn(3, 5)} : \E i \in DOMAIN x : x[i] = "D"}}
C12S == Plines \cup Delims \cup Sample(Pickn(160, 2000), Pclims) \cup Sample(Pickn(120, 1000), Tiamo)

\* ---- C13: histories of writes and reads over two files -------------------------
\* abstract operations; data are drawn by the driver
Fmt == {".3f", ".6f", ".0f", ".1f", ".12f", ".5e", ".7g", ".17g", "", "12.4f", "+.2f"}
Data == {"plain", "tiny", "huge", "neg", "int", "halves", "nan", "single", "many"}
WriteOps == {[op |-> "write", path |-> p, mode |-> m] : p \in {"a", "b"}, m \in {"default", "x", "w"}}
ReadOps == {[op |-> "read", path |-> p] : p \in {"a", "b"}}
Hist == UNION {[1..n -> WriteOps \cup ReadOps] : n \in 2..3}
Dress(h, k) == [kind |-> "history", ops |-> h, pre |-> RandomElement({"none", "a", "ab", "empty"}), fmts |-> [i \in 1..3 |-> RandomElement(Fmt)],
                data |-> [i \in 1..Len(h) |-> RandomElement(Data)], lines |-> RandomElement({"default", "custom", "empty", "unicode"}),
                box |-> RandomElement({"list", "array", "series", "tuple", "f32", "ints"}), enc |-> RandomElement(IF RandomElement(1..2) = 1 THEN {""} ELSE {"utf-8", "utf-16"}),
                eol |-> RandomElement({"", "", "crlf"}), rep |-> k]
\* every history of two operations from every start, a sample of three; every format with every kind of data
C13S == {Dress(h, 0) : h \in [1..2 -> WriteOps \cup ReadOps]}
        \cup {Dress(h, 1) : h \in Sample(Pickn(150, 512), [1..3 -> WriteOps \cup ReadOps])}
        \cup {[Dress(<<[op |-> "write", path |-> "a", mode |-> m], [op |-> "read", path |-> "a"]>>, k) EXCEPT !.fmts = <<f, f, g>>, !.data = <<d, d>>, !.pre = "none"] :
                f \in Fmt, g \in {RandomElement(Fmt)}, d \in Data, m \in {"w", "default"}, k \in 1..Pickn(1, 8)}
        \cup {[kind |-> "solve", mode |-> m, fmt |-> f, rep |-> k] : m \in {"emf", "pH", "pH_gran", "pH_adjust"}, f \in {".12f", ".17g", ".14e"}, k \in 1..Pickn(2, 10)}

\* ---- C14 ---------------------------------------------------------------------------
RunType == {"bottle", "CRM", "junk", "Bottle", "other", "blank", "CRM test", "oldCRM", "crm", "bottles"}
Bottle == {"word", "number", "zeros", "dash", "space"}
Lit(x) == [lit |-> x]
Fld(f, w) == [fld |-> f, w |-> w]
Formats == <<
  <<Fld("s", 0), Lit("-"), Fld("c", 0), Lit("  "), Fld("n", 0), Lit("  ("), Fld("d", 0), Lit(")"), Fld("b", 0), Lit(".dat")>>,
  <<Fld("s", 0), Lit("-"), Fld("c", 0), Lit(" "), Fld("n", 0), Lit(" ("), Fld("d", 0), Lit(")"), Fld("b", 0), Lit(".dat")>>,
  <<Lit("cruise_"), Fld("b", 0), Lit(".txt")>>,
  <<Fld("s", 4), Lit("_"), Fld("c", 2), Lit("_"), Fld("n", 3), Lit(".dat")>> >>
DbsRow == [run : RunType, bottle : Bottle, dt : {"full", "nodate", "notime", "none"}, batch : {"int", "none", "word"}, cert : BOOLEAN]
Row(i) == [run |-> RandomElement(RunType), bottle |-> RandomElement(Bottle), dt |-> RandomElement(IF RandomElement(1..3) = 1 THEN {"nodate", "notime", "none"} ELSE {"full"}),
        batch |-> RandomElement(IF RandomElement(1..3) = 1 THEN {"none"} ELSE {"int"}), cert |-> RandomElement(1..3) # 1]
DbsScn(rows, k) == [kind |-> "dbs", rows |-> rows, fmt |-> RandomElement({0, 1, 2, 3, 4}), amount |-> RandomElement({"default", "volume", "mass"}),
                    path |-> RandomElement({"none", "dir", "dirslash"}), cols |-> RandomElement({"usual", "moved", "fewer", "good"}),
                    trail |-> RandomElement({0, 2}), eol |-> RandomElement({"lf", "crlf"}), solve |-> RandomElement(1..4) = 1, dup |-> RandomElement(1..4) = 1, rep |-> k]
\* every kind of line on its own and with a CRM and a bottle run beside it; random tables
Plain(r) == [run |-> r, bottle |-> "word", dt |-> "full", batch |-> "int", cert |-> TRUE]
C14Dbs == {DbsScn(<<r>>, 0) : r \in Sample(Pickn(40, 400), DbsRow)}
          \cup {DbsScn(<<Plain("CRM"), r, Plain("bottle")>>, 0) : r \in Sample(Pickn(80, 400), DbsRow)}
          \cup {DbsScn([i \in 1..RandomElement(2..9) |-> Row(i)], k) : k \in 1..Pickn(150, 3000)}
          \cup {[s EXCEPT !.solve = TRUE, !.fmt = f] : s \in {DbsScn(<<Plain("CRM"), Plain("bottle"), Plain("junk"), Plain("CRM")>>, 0)}, f \in 0..4}
C14Tab == {[kind |-> "table", fn |-> f, index |-> i, opt |-> o, n |-> n, solve |-> (o = "none"), rep |-> k] :
             f \in {"read_csv", "read_excel", "read_table", "read_fwf"}, i \in BOOLEAN, o \in {"none", "usecols", "nrows", "skiprows", "na", "dtype", "nullrow"},
             n \in {1, 4}, k \in 1..Pickn(1, 8)}
C14S == {[s EXCEPT !.fmt = IF s.fmt = 0 THEN <<>> ELSE Formats[s.fmt]] : s \in C14Dbs} \cup C14Tab
=============================================================================
