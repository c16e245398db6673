---------------------------- MODULE SessionTrace ---------------------------
(***************************************************************************)
(* Histories: every recorded operation is judged by TableTrace, and the    *)
(* whole history is a behaviour of Session: the abstract table after each  *)
(* operation says which cells are null and which results are equal.        *)
(***************************************************************************)
EXTENDS TableTrace
S == INSTANCE Session

Start(e) ==
  LET x == e.scn.init IN
  [cols |-> SeqToSet(x.cols), disk |-> [A |-> "v1", B |-> "w1", G |-> "gone"],
   rows |-> [i \in 1..Len(x.rows) |->
      S!SetCell([x.rows[i] EXCEPT !.mol = {}, !.here = {}, !.res = {}], "mol", x.rows[i].mol)]]
RECURSIVE Behaviour(_, _, _)
Behaviour(t, h, k) == IF k > Len(h) THEN <<>> ELSE LET n == TLCEval(S!Apply(t, h[k])) IN <<n>> \o Behaviour(n, h, k + 1)

RealName == [fg |-> "file_good", ref |-> "reference_good", batch |-> "analysis_batch", so4 |-> "total_sulfate", bor |-> "total_borate",
             otb |-> "opt_total_borate", win |-> "pH_max", mol |-> "titrant_molinity", here |-> "titrant_molinity_here", res |-> "alkalinity"]
C08(e) ==
  LET h == e.scn.hist
      states == TLCEval(Behaviour(Start(e), h, 1))
      \* position in the history of the recorded steps
      pos == Where([k \in 1..Len(h) |-> S!IsCalc(h[k])])
      ok == Len(pos) = Len(e.steps) /\ \A k \in 1..Len(e.steps) : e.steps[k].err = ""
      one(k) ==
        LET t == states[pos[k]]
            a == e.steps[k].after
            tag(x, i) == Cat(Cat(IStr(k), ":model_"), Tag(x, i))
        IN  Clause(Cat(IStr(k), ":model_columns"), \A c \in DOMAIN RealName : HasCol(a, RealName[c]) <=> (c \in t.cols))
            \cup Clause(Cat(IStr(k), ":model_rows"), Len(a.rows) = Len(t.rows))
            \cup (IF Len(a.rows) # Len(t.rows) \/ ~(\A c \in t.cols : HasCol(a, RealName[c])) THEN {}
                  ELSE UNION {
                    (IF "here" \in t.cols THEN Clause(tag("here_null", i), IsNull(a.rows[i]["titrant_molinity_here"]) <=> t.rows[i].here = {}) ELSE {})
                    \cup Clause(tag("molinity_null", i), IsNull(a.rows[i]["titrant_molinity"]) <=> t.rows[i].mol = {})
                    \cup Clause(tag("result_null", i), IsNull(a.rows[i]["alkalinity"]) <=> t.rows[i].res = {})
                    \cup Clause(tag("emf0_null", i), t.rows[i].res = {} => IsNull(a.rows[i]["emf0"]))
                    \cup UNION {Clause(tag(RealName[c], i), IsNull(a.rows[i][RealName[c]]) <=> t.rows[i][c] = S!Null) :
                                  c \in {"fg", "ref", "batch", "so4", "bor", "otb", "win"} \cap t.cols}
                    : i \in 1..Len(t.rows)})
      \* same inputs, same results, whenever and wherever
      all == {<<k, i>> : k \in 1..Len(pos), i \in 1..Len(states[1].rows)}
      resOf(x) == states[pos[x[1]]].rows[x[2]].res
      alkOf(x) == e.steps[x[1]].after.rows[x[2]]["alkalinity"]
      history == IF \E x \in all, y \in all : resOf(x) # {} /\ resOf(x) = resOf(y) /\ ~SameAs(alkOf(x), alkOf(y))
                 THEN {"model_history_dependent"} ELSE {}
      model == IF ~ok THEN {} ELSE LET m == TLCEval(UNION {one(k) : k \in 1..Len(pos)}) IN m \cup (IF m = {} THEN history ELSE {})
  IN  Steps(e) \cup model \cup Clause("look_changes", \A k \in 1..Len(e.looks) : e.looks[k])
=============================================================================
