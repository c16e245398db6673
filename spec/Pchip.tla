-------------------------------- MODULE Pchip ------------------------------
(***************************************************************************)
(* Shape-preserving piecewise cubic interpolation (Fritsch & Carlson), as  *)
(* used between titration points.  x increasing; beyond its ends the first *)
(* and last cubics continue.                                               *)
(***************************************************************************)
EXTENDS Vec

Sgn(a) == IF a \prec Zero THEN -1 ELSE IF Zero \prec a THEN 1 ELSE 0
\* derivative at an end: three-point formula, limited to keep the shape
EndSlope(h0, h1, m0, m1) ==
  LET d == ((((h0 \oplus h0) \oplus h1) \otimes m0) \ominus (h0 \otimes m1)) \oslash (h0 \oplus h1) IN
  IF Sgn(d) # Sgn(m0) THEN Zero
  ELSE IF Sgn(m0) # Sgn(m1) /\ (R("3") \otimes RAbs(m0)) \prec RAbs(d) THEN R("3") \otimes m0 ELSE d
\* weighted harmonic mean inside, zero at extremes
MidSlope(h0, h1, m0, m1) ==
  IF Sgn(m0) # Sgn(m1) \/ Sgn(m0) = 0 THEN Zero
  ELSE LET w1 == (h1 \oplus h1) \oplus h0
           w2 == h1 \oplus (h0 \oplus h0)
       IN  (w1 \oplus w2) \oslash ((w1 \oslash m0) \oplus (w2 \oslash m1))
Slopes(x, y) ==
  LET n == Len(x)
      h == Tab(n - 1, LAMBDA k : x[k + 1] \ominus x[k])
      m == Tab(n - 1, LAMBDA k : (y[k + 1] \ominus y[k]) \oslash h[k])
  IN  IF n = 2 THEN <<m[1], m[1]>>
      ELSE Tab(n, LAMBDA k : IF k = 1 THEN EndSlope(h[1], h[2], m[1], m[2])
                             ELSE IF k = n THEN EndSlope(h[n - 1], h[n - 2], m[n - 1], m[n - 2])
                             ELSE MidSlope(h[k - 1], h[k], m[k - 1], m[k]))
\* the interval of x that u is in (or nearest to), searched from interval k on
RECURSIVE IntervalFrom(_, _, _)
IntervalFrom(x, u, k) == IF k + 1 >= Len(x) \/ u \prec x[k + 1] THEN k ELSE IntervalFrom(x, u, k + 1)
\* the intervals of an increasing sequence of places
RECURSIVE IntervalsFrom(_, _, _, _, _)
IntervalsFrom(x, us, j, k, acc) ==
  IF j > Len(us) THEN acc ELSE LET i == IntervalFrom(x, us[j], k) IN IntervalsFrom(x, us, j + 1, i, Append(acc, i))
Intervals(x, us) == TLCEval(IntervalsFrom(x, us, 1, 1, <<>>))
\* cubic Hermite on interval k
Cubic(x, y, d, k, u) ==
  LET h == x[k + 1] \ominus x[k]
      s == (u \ominus x[k]) \oslash h
      t == One \ominus s
      h00 == (Sq(t)) \otimes (One \oplus (s \oplus s))
      h10 == s \otimes Sq(t)
      h01 == Sq(s) \otimes (R("3") \ominus (s \oplus s))
      h11 == RNeg(Sq(s) \otimes t)
  IN  ((h00 \otimes y[k]) \oplus ((h10 \otimes h) \otimes d[k])) \oplus ((h01 \otimes y[k + 1]) \oplus ((h11 \otimes h) \otimes d[k + 1]))
Pchip(x, y, us) ==
  LET d == Slopes(x, y)
      at == Intervals(x, us)
  IN  Tab(Len(us), LAMBDA j : Cubic(x, y, d, at[j], us[j]))
=============================================================================
