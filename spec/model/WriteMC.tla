-------------------------------- MODULE WriteMC ----------------------------
(* Every history of writes to two paths from every start.                   *)
EXTENDS WriteFs
CONSTANT MaxLen
VARIABLES fs, hist, start
vars == <<fs, hist, start>>
Paths == {"a", "b"}
Modes == {"x", "w"}
New(n) == [what |-> "written", by |-> n]
Init == start \in [Paths -> {Absent, UserFile, EmptyFile}] /\ fs = start /\ hist = <<>>
Next == Len(hist) < MaxLen /\ \E p \in Paths, m \in Modes : LET op == [path |-> p, mode |-> m] IN
          fs' = AfterWrite(fs, op, New(Len(hist) + 1)) /\ hist' = Append(hist, op) /\ UNCHANGED start
Spec == Init /\ [][Next]_vars
On(p) == {i \in 1..Len(hist) : hist[i].path = p}
Forced(p) == {i \in On(p) : hist[i].mode = "w"}
MaxOf(S) == CHOOSE i \in S : \A j \in S : j <= i
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
\* what is there in the end, said without stepping through the history: the
\* last "w"; else what was there first (the start, or the first "x")
Result(p) == IF Forced(p) # {} THEN New(MaxOf(Forced(p)))
             ELSE IF start[p] # Absent THEN start[p]
             ELSE IF On(p) # {} THEN New(MinOf(On(p))) ELSE Absent
Last == \A p \in Paths : fs[p] = Result(p)
\* the user's file survives the default mode
Safe == \A p \in Paths : (start[p] # Absent /\ Forced(p) = {}) => fs[p] = start[p]
\* one write touches one path; files never disappear
Step == [][\E p \in Paths : \A q \in Paths \ {p} : fs'[q] = fs[q]]_vars
Stay == [][\A p \in Paths : fs[p] # Absent => fs'[p] # Absent]_vars
Inv == Last /\ Safe
\* formats: rounding again changes nothing, and enough digits keep the value
Values == {R("0"), R("-1.0005"), R("2.675"), R("123456.789"), R("1e-7"), R("0.1"), R("33.333333333333336")}
ASSUME \A f \in DOMAIN FmtOf : \A v \in Values : As(f, As(f, v)) = As(f, v)
ASSUME \A f \in {"", ".17g"} : \A v \in Values : As(f, v) = v
ASSUME \A v \in Values : Close(As(".3f", v), v, R("0.000501"), Zero) /\ Close(As(".5e", v), v, Zero, R("0.6e-5"))
=============================================================================
