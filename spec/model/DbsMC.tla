-------------------------------- MODULE DbsMC ------------------------------
(* The calendar of the dbs tables, day by day through the two-digit years.  *)
EXTENDS Dbs
VARIABLES y, m, d, n
vars == <<y, m, d, n>>
Leap(k) == k % 4 = 0 /\ (k % 100 # 0 \/ k % 400 = 0)
Month(k, j) == IF j = 2 THEN (IF Leap(k) THEN 29 ELSE 28) ELSE IF j \in {4, 6, 9, 11} THEN 30 ELSE 31
Init == y = 2000 /\ m = 1 /\ d = 1 /\ n = 10957
Next == /\ ~(y = 2099 /\ m = 12 /\ d = 31)
        /\ n' = n + 1
        /\ IF d < Month(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_vars
Two(k) == IF k < 10 THEN Cat("0", IStr(k)) ELSE IStr(k)
date == Cat(Two(m), Cat("/", Cat(Two(d), Cat("/", Two(y - 2000)))))
Epoch == Days(1970, 1, 1) = 0
Count == Days(y, m, d) = n
Text == LET w == DateOf(date, "07:45") IN
  /\ w.iso = Cat(Cat(IStr(y), Cat("-", Cat(Two(m), Cat("-", Two(d))))), "T07:45:00")
  /\ Close(w.num, R(n) \oplus (R("7.75") \oslash R("24")), Zero, R("1e-15"))
Inv == Epoch /\ Count /\ Text
=============================================================================
