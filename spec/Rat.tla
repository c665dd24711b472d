-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic and total accessors, shared by every module.  *)
(*                                                                         *)
(* A rational is the string "n" or "n/d" in lowest terms, d > 1; a TLC     *)
(* integer is accepted wherever a rational is read.  TLC integers are 32   *)
(* bit, so the operators are overridden by spec/java/Rat.java (BigInteger);*)
(* the definitions below are their meaning.  A value which is not a        *)
(* rational (the implementation returned NaN, infinity, the wrong type or  *)
(* an array of the wrong shape) reads as "nan", which absorbs arithmetic   *)
(* and makes every comparison FALSE: a verdict is total on any recording.  *)
(*                                                                         *)
(* Positions are 0-based (At), as in the formulas of the implementation.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

RatUndef == CHOOSE x : x = x     \* never evaluated: the operators below are overridden

RAdd(a, b)    == RatUndef    \* a + b
RSub(a, b)    == RatUndef    \* a - b
RMul(a, b)    == RatUndef    \* a * b
RDiv(a, b)    == RatUndef    \* a / b, "nan" when b = 0
RNeg(a)       == RatUndef    \* -a
RAbs(a)       == RatUndef    \* |a|
R(a)          == RatUndef    \* canonical form
IsRat(a)      == RatUndef    \* a is a finite number
RLeq(a, b)    == RatUndef    \* a <= b, FALSE on "nan"
RLt(a, b)     == RatUndef    \* a < b,  FALSE on "nan"
REq(a, b)     == RatUndef    \* a = b,  FALSE on "nan"
RFloor(a)     == RatUndef    \* greatest TLC integer <= a
RRound(a, k)  == RatUndef    \* a to the nearest multiple of 2^-k
RSum(s)       == RatUndef    \* sum of a sequence or of the values of a function
RSumAbs(s)    == RatUndef    \* sum of absolute values
RMaxOf(s)     == RatUndef
RMinOf(s)     == RatUndef
RDot(s, t)    == RatUndef    \* sum of s[i]*t[i]; "nan" if lengths differ
RDotAbs(s, t) == RatUndef    \* sum of |s[i]*t[i]|

At(v, i)            == RatUndef  \* entry i (from 0), "nan" outside
At2(v, i, j)        == RatUndef
At3(v, i, j, k)     == RatUndef
At4(v, i, j, k, m)  == RatUndef
Size(v)             == RatUndef  \* length of a sequence, -1 for anything else
HasShape(v, dims)   == RatUndef  \* rectangular array of finite rationals with these dimensions
MaxAbs(v)           == RatUndef  \* largest absolute value in a nested array
Close(a, b, tol)    == RatUndef  \* same nesting and all entries within tol

\* matrices: sequences of rows
MMul(P, Q)          == RatUndef  \* product
MLin(a, P, b, Q)    == RatUndef  \* a P + b Q
WConv(w, Bs, Ks)    == RatUndef  \* sum over i of w[i] Bs[i] Ks[i]
WConvAbs(w, Bs, Ks) == RatUndef  \* the same with absolute values
MSolve(M, B)        == RatUndef  \* the X with M X = B, "nan" if M is singular
Eager(v)            == RatUndef  \* v itself (a nested array), evaluated once: TLC would re-evaluate it at each use
MRound(v, k)        == RatUndef  \* every entry to the nearest multiple of 2^-k

a \oplus b  == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)
a \preceq b == RLeq(a, b)

\* sequences as functions on 0..n-1 and back
Tab(n, F(_)) == [i \in 1..n |-> F(i - 1)]
Range0(n) == 0..(n - 1)

\* relative tolerance: TOL * (1 + scale)
WithinTol(a, b, scale, tol) == RLeq(RAbs(RSub(a, b)), RMul(tol, RAdd(1, RAbs(scale))))

\* TOL * scale: nothing is granted to data of small magnitude
WithinRel(a, b, scale, tol) == RLeq(RAbs(RSub(a, b)), RMul(tol, RAbs(scale)))

Absent(v) == Size(v) = -1     \* recorded as "absent": not an array

MinI(a, b) == IF a <= b THEN a ELSE b
MaxI(a, b) == IF a >= b THEN a ELSE b
=============================================================================
