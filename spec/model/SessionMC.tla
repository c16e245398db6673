------------------------------ MODULE SessionMC ----------------------------
(***************************************************************************)
(* Exhaustive exploration of Session: all histories of up to Depth         *)
(* operations on two rows.  u is a ghost: what the user last wrote in each *)
(* cell; last: the last operation; clean: since the first calculation no   *)
(* edit has touched what has been filled in from other cells.              *)
(***************************************************************************)
EXTENDS Session
CONSTANTS Depth
VARIABLES t, u, last, depth, clean
vars == <<t, u, last, depth, clean>>

Row(i) == [rid |-> i, file |-> "A", sal |-> "s1", cert |-> IF i = 1 THEN "c1" ELSE Null, fg |-> Null, ref |-> Null, batch |-> Null,
           so4 |-> Null, bor |-> Null, otb |-> Null, win |-> Null, am |-> "a1", vol |-> Null, tov |-> Null, dic |-> "d1", mol |-> {}, here |-> {}, res |-> {}]
Kws == {NoKw, [NoKw EXCEPT !.so4 = "k"], [NoKw EXCEPT !.otb = "2"], [NoKw EXCEPT !.win = "k"]}
Cells == {<<"file", "B">>, <<"file", "G">>, <<"sal", "s2">>, <<"cert", Null>>, <<"cert", "c2">>, <<"so4", "u">>, <<"so4", Null>>,
          <<"bor", "u">>, <<"otb", "2">>, <<"win", "u">>, <<"win", Null>>, <<"mol", "m1">>, <<"mol", Null>>, <<"ref", "F">>, <<"fg", "F">>,
          <<"batch", "1">>, <<"am", Null>>, <<"vol", "v1">>, <<"tov", "t">>}
Ops == {Op(o, k) : o \in {"solve", "calibrate", "calkulate"}, k \in Kws}
       \cup {Edit("set", i, c[1], c[2]) : i \in {1, 2}, c \in Cells}
       \cup {Edit("drop", 0, c, "") : c \in {"ref", "batch", "so4"}}
       \cup {Edit("disk", 0, "A", v) : v \in {"a2", "gone"}} \cup {Edit("reverse", 0, "", "")}
Init ==
  /\ \E cs \in {{}, {"mol"}, {"mol", "batch"}} :
       t = [cols |-> cs, disk |-> [A |-> "a1", B |-> "b1", G |-> "gone"],
            rows |-> [i \in {1, 2} |-> [Row(i) EXCEPT !.mol = IF "mol" \in cs /\ i = 2 THEN {UserMol("m1")} ELSE {},
                                                      !.batch = IF "batch" \in cs THEN "0" ELSE Null]]]
  /\ u = t /\ last = Op("look", NoKw) /\ depth = 0 /\ clean = TRUE
Next ==
  /\ depth < Depth
  /\ \E o \in Ops :
      /\ Enabled(t, o)
      /\ t' = Apply(t, o)
      /\ u' = IF IsCalc(o) THEN (IF o.op = "solve" THEN u ELSE Apply(u, Edit("drop", 0, "mol", "")))
              ELSE IF o.op = "set" /\ o.col \in {"ref", "fg", "batch"} /\ o.col \notin u.cols
              THEN [u EXCEPT !.rows = [i \in 1..2 |-> [@[i] EXCEPT ![o.col] = t'.rows[i][o.col]]], !.cols = @ \cup {o.col}]
              ELSE Apply(u, o)
      /\ last' = o
      /\ depth' = depth + 1
      /\ clean' = (clean /\ (IsCalc(o) => o.kw = NoKw) /\ ~(o.op = "set" /\ o.col \in {"sal", "otb", "ref", "batch", "so4", "cert", "file", "fg"})
                         /\ o.op \notin {"drop", "disk", "reverse"})
Spec == Init /\ [][Next]_vars

Calc == IsCalc(last)
Kw == last.kw
UserCols == {"file", "sal", "cert", "fg", "ref", "batch", "so4", "bor", "otb", "win", "am", "vol", "tov", "dic"}
\* values the user supplied are never replaced
UserKept == \A i \in 1..2 : /\ t.rows[i].rid = u.rows[i].rid
                            /\ \A c \in UserCols : u.rows[i][c] # Null => t.rows[i][c] = u.rows[i][c]
                            /\ u.rows[i].mol # {} => t.rows[i].mol = u.rows[i].mol
\* results are null exactly for the rows that cannot be solved
NullIffUnsolvable ==
  Calc => \A i \in 1..2 : LET r == t.rows[i] IN (r.res = {}) <=> (r.mol = {} \/ ~GoodFile(r) \/ ~Readable(t, r))
\* ... and come from the cells the table shows now
Fresh == Calc => \A i \in 1..2 : LET r == t.rows[i] IN r.res # {} => r.res = {<<Inputs(t, r, Kw), r.mol>>}
Idempotent == Calc => Apply(t, last) = t
SolveIdempotent == Calc => Apply(t, Op("solve", Kw)) = t
CalkulateIsBoth == \A k \in Kws : Enabled(t, Op("calkulate", k)) =>
                     Apply(t, Op("calkulate", k)) = Apply(Apply(t, Op("calibrate", k)), Op("solve", k))
\* a batch shares one molinity, null exactly without a good reference
BatchMean ==
  (Calc /\ last.op # "solve") =>
     \A i, j \in 1..2 : t.rows[i].batch = t.rows[j].batch => t.rows[i].mol = t.rows[j].mol
\* order of the rows does not matter
OrderFree == \A o \in {Op(p, NoKw) : p \in {"solve", "calibrate"}} :
  Enabled(t, o) => Apply(Apply(t, Edit("reverse", 0, "", "")), o) = Apply(Apply(t, o), Edit("reverse", 0, "", ""))
\* without edits of what others were derived from, history leaves no trace:
\* the results are those of one operation on what the user wrote
WithMol == [u EXCEPT !.cols = @ \cup {"mol"}, !.rows = [i \in 1..2 |-> [@[i] EXCEPT !.mol = t.rows[i].mol]]]
OneShot == (Calc /\ clean) => \A i \in 1..2 : t.rows[i].res = Apply(WithMol, last).rows[i].res
Inv == UserKept /\ NullIffUnsolvable /\ Fresh /\ Idempotent /\ SolveIdempotent /\ CalkulateIsBoth /\ BatchMean /\ OrderFree /\ OneShot
=============================================================================
