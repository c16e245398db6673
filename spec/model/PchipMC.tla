------------------------------- MODULE PchipMC -----------------------------
(* Laws of the interpolation: every pattern of four points and spacings.    *)
EXTENDS Pchip
VARIABLES gap, val
vars == <<gap, val>>
Init == gap = <<>> /\ val \in [1..4 -> {-2, 0, 1, 3}]
Next == gap = <<>> /\ gap' \in [1..3 -> {1, 2, 5}] /\ UNCHANGED val
Spec == Init /\ [][Next]_vars
Near(a, b) == Close(a, b, R("1e-12"), R("1e-12"))
x == <<Zero, R(gap[1]), R(gap[1] + gap[2]), R(gap[1] + gap[2] + gap[3])>>
y == Map(val, LAMBDA v : R(v))
Part(k) == R(k) \oslash R("8")
In(j, k) == x[j] \oplus (Part(k) \otimes (x[j + 1] \ominus x[j]))
us == [n \in 1..24 |-> In(((n - 1) \div 8) + 1, (n - 1) % 8)] \o <<x[4]>>
Ready == gap # <<>>
f == Pchip(x, y, us)
\* the curve passes through the points
Nodes == Ready => /\ Near(f[1], y[1]) /\ Near(f[9], y[2]) /\ Near(f[17], y[3]) /\ Near(f[25], y[4])
\* between two points it stays between them and runs one way (no overshoot)
Between(v, a, b) == (RMin(a, b) \ominus R("1e-12")) \preceq v /\ v \preceq (RMax(a, b) \oplus R("1e-12"))
Shape == Ready => LET g == f IN
  \A n \in 1..24 : LET j == ((n - 1) \div 8) + 1 IN
     /\ Between(g[n], y[j], y[j + 1])
     /\ IF val[j] <= val[j + 1] THEN g[n] \preceq (g[n + 1] \oplus R("1e-12")) ELSE g[n + 1] \preceq (g[n] \oplus R("1e-12"))
\* a straight line stays straight; the curve moves and scales with the data
Straight == Ready => LET w == Pchip(x, Map(x, LAMBDA u : (R("3") \otimes u) \ominus One), us) IN
  \A n \in 1..25 : Near(w[n], (R("3") \otimes us[n]) \ominus One)
Linear == Ready => LET w == Pchip(x, Map(y, LAMBDA u : (R("-2") \otimes u) \oplus R("7")), us) g == f IN
  \A n \in 1..25 : Near(w[n], (R("-2") \otimes g[n]) \oplus R("7"))
\* it does not matter what else is asked for
Alone == Ready => \A n \in {1, 6, 12, 20, 25} : Pchip(x, y, <<us[n]>>)[1] = f[n]
Inv == Nodes /\ Shape /\ Straight /\ Linear /\ Alone
=============================================================================
