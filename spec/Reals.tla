------------------------------- MODULE Reals -------------------------------
(***************************************************************************)
(* IEEE-754 double arithmetic, a little text handling and JSON input.      *)
(*                                                                         *)
(* TLC has no reals.  The operators below are declared here and evaluated  *)
(* by java/Reals.java on values of class RealValue, so that every formula  *)
(* of the other modules is executable: TLC itself computes the numbers     *)
(* that the implementation is compared with.  Reals never occur in spec    *)
(* variables, only in the constant-level trace and in derived values.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

R(s) == CHOOSE x : TRUE          \* the real with decimal literal s (or an int)
RAdd(x, y) == CHOOSE r : TRUE
RSub(x, y) == CHOOSE r : TRUE
RMul(x, y) == CHOOSE r : TRUE
RDiv(x, y) == CHOOSE r : TRUE
RNeg(x) == CHOOSE r : TRUE
RAbs(x) == CHOOSE r : TRUE
RSqrt(x) == CHOOSE r : TRUE
RExp(x) == CHOOSE r : TRUE
RLn(x) == CHOOSE r : TRUE
RLog10(x) == CHOOSE r : TRUE
RPow(x, y) == CHOOSE r : TRUE
RLt(x, y) == CHOOSE r : TRUE
RLe(x, y) == CHOOSE r : TRUE
RIsNaN(x) == CHOOSE r : TRUE
RIsFin(x) == CHOOSE r : TRUE
IsReal(x) == CHOOSE r : TRUE
IsStr(x) == CHOOSE r : TRUE
IsSeq(x) == CHOOSE r : TRUE
IsBool(x) == CHOOSE r : TRUE
RStr(x) == CHOOSE r : TRUE
RFloor(x) == CHOOSE r : TRUE
RRound(x, n) == CHOOSE r : TRUE  \* nearest multiple of 10^-n
RSig(x, n) == CHOOSE r : TRUE    \* nearest number of n significant digits
RIntStr(x, n) == CHOOSE r : TRUE \* integer part as text of at least n digits
VSum(s) == CHOOSE r : TRUE
Lines(s) == CHOOSE r : TRUE
Split(s, sep) == CHOOSE r : TRUE
Cat(a, b) == CHOOSE r : TRUE
Lower(a) == CHOOSE r : TRUE
Trim(a) == CHOOSE r : TRUE
IStr(a) == CHOOSE r : TRUE
StrLen(a) == CHOOSE r : TRUE
StartsWith(a, p) == CHOOSE r : TRUE
EndsWith(a, p) == CHOOSE r : TRUE
Contains(a, p) == CHOOSE r : TRUE
IsNumeral(a) == CHOOSE r : TRUE
LoadNdJson(f) == CHOOSE r : TRUE

a \oplus b == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)

Zero == R("0")
One == R("1")
Mega == R("1e6")
Micro == R("1e-6")
NaN == R("NaN")
RMax(a, b) == IF a \prec b THEN b ELSE a
RMin(a, b) == IF a \prec b THEN a ELSE b
Sq(a) == a \otimes a

\* Closeness: equal NaNs are close, anything else must differ by at most
\* abs + rel*|expected|.
Close(x, expected, abs, rel) ==
  IF RIsNaN(expected) \/ RIsNaN(x)
  THEN RIsNaN(expected) /\ RIsNaN(x)
  ELSE IF ~RIsFin(expected) THEN x = expected
  ELSE RAbs(x \ominus expected) \preceq (abs \oplus (rel \otimes RAbs(expected)))
=============================================================================
