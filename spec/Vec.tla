-------------------------------- MODULE Vec --------------------------------
(* Vectors of reals, as sequences. *)
EXTENDS Reals, TLC

Tab(n, f(_)) == TLCEval([i \in 1..n |-> f(i)])
Map(s, f(_)) == TLCEval([i \in 1..Len(s) |-> f(s[i])])
VAddS(s, c) == Map(s, LAMBDA x : x \oplus c)
VScale(s, c) == Map(s, LAMBDA x : x \otimes c)
Dot(s, t) == VSum(Tab(Len(s), LAMBDA i : s[i] \otimes t[i]))
Mean(s) == VSum(s) \oslash R(Len(s))
\* population (ddof = 0) and sample (ddof = 1) standard deviations
StdDev(s, ddof) ==
  LET m == Mean(s)
      q == VSum(Map(s, LAMBDA x : Sq(x \ominus m)))
  IN  RSqrt(q \oslash R(Len(s) - ddof))
RECURSIVE MaxFrom(_, _, _)
MaxFrom(s, i, m) == IF i > Len(s) THEN m ELSE MaxFrom(s, i + 1, RMax(m, s[i]))
VMax(s) == MaxFrom(s, 2, s[1])
RECURSIVE MinFrom(_, _, _)
MinFrom(s, i, m) == IF i > Len(s) THEN m ELSE MinFrom(s, i + 1, RMin(m, s[i]))
VMin(s) == MinFrom(s, 2, s[1])
\* elements of s at the positions where mask is TRUE, in order
Pick(s, mask) ==
  LET RECURSIVE go(_)
      go(i) == IF i > Len(s) THEN <<>>
               ELSE IF mask[i] THEN <<s[i]>> \o go(i + 1) ELSE go(i + 1)
  IN  TLCEval(go(1))
CountTrue(mask) == Len(Pick(mask, mask))
\* positions where the mask is TRUE, as a sequence of indices
Where(mask) == Pick([i \in 1..Len(mask) |-> i], mask)
At(s, idx) == Map(idx, LAMBDA i : s[i])
\* least-squares straight line: slope, intercept, correlation coefficient
LinFit(x, y) ==
  LET mx == Mean(x)  my == Mean(y)
      sxx == VSum(Map(x, LAMBDA u : Sq(u \ominus mx)))
      syy == VSum(Map(y, LAMBDA u : Sq(u \ominus my)))
      sxy == VSum(Tab(Len(x), LAMBDA i : (x[i] \ominus mx) \otimes (y[i] \ominus my)))
      slope == sxy \oslash sxx
  IN  [slope |-> slope, intercept |-> my \ominus (slope \otimes mx),
       r |-> sxy \oslash RSqrt(sxx \otimes syy)]
CloseVec(x, e, abs, rel) ==
  /\ IsSeq(x)
  /\ Len(x) = Len(e)
  /\ \A i \in 1..Len(e) : IsReal(x[i]) /\ Close(x[i], e[i], abs, rel)
CloseNum(x, e, abs, rel) == IsReal(x) /\ Close(x, e, abs, rel)
Has(r, f) == f \in DOMAIN r
=============================================================================
