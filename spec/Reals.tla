------------------------------- MODULE Reals -------------------------------
(***************************************************************************)
(* The elementary functions the code under test uses, to 2^-140, by their  *)
(* series (Newton iteration for the square root).  Arguments are rational. *)
(***************************************************************************)
EXTENDS Rat
LOCAL Bits == 140
Pi == "3141592653589793238462643383279502884197169399375105820974944592307816406286/1000000000000000000000000000000000000000000000000000000000000000000000000000"

\* sum of the series t_0 + t_1 + ..., where t_{k+1} = t_k * x2 * f(k); stops when the terms are negligible
RECURSIVE SeriesFrom(_, _, _, _, _)
SeriesFrom(t, k, x2, f(_), acc) ==
  IF k > 400 \/ (k > 3 /\ RLt(RAbs(t), "1/10000000000000000000000000000000000000000000"))
  THEN acc
  ELSE LET n == RRound((t \otimes x2) \otimes f(k), Bits)
       IN SeriesFrom(n, k + 1, x2, f, RAdd(acc, n))

\* an angle, less whole turns
LOCAL Turn(x) == IF RLt(RAbs(x), "4") THEN R(x) ELSE RRound(x \ominus RMul(RFloor(x \oslash RMul(2, Pi)), RMul(2, Pi)), Bits)
LOCAL CosOf(x) == SeriesFrom("1", 0, RRound(RNeg(x \otimes x), Bits), LAMBDA k : RDiv(1, (2 * k + 1) * (2 * k + 2)), "1")
LOCAL SinOf(x) == SeriesFrom(R(x), 0, RRound(RNeg(x \otimes x), Bits), LAMBDA k : RDiv(1, (2 * k + 2) * (2 * k + 3)), R(x))
Cos(x) == CosOf(Turn(x))
Sin(x) == SinOf(Turn(x))
RECURSIVE Exp(_)
Exp(x) == IF RLt(64, RAbs(x)) THEN LET h == Exp(x \oslash 2) IN RRound(h \otimes h, Bits)
          ELSE IF RLt(x, "0") THEN RRound(RDiv(1, SeriesFrom("1", 0, RNeg(x), LAMBDA k : RDiv(1, k + 1), "1")), Bits)
          ELSE SeriesFrom("1", 0, R(x), LAMBDA k : RDiv(1, k + 1), "1")

RECURSIVE SqrtIter(_, _, _)
SqrtIter(x, y, n) == IF n = 0 THEN y ELSE SqrtIter(x, RRound((y \oplus (x \oslash y)) \oslash 2, Bits), n - 1)
Sqrt(x) == IF ~IsRat(x) \/ RLt(x, "0") THEN "nan" ELSE IF REq(x, "0") THEN "0" ELSE SqrtIter(x, RMaxOf(<<x, "1">>), 40)
ExpHalf == Exp("1/2")
\* natural logarithm of a positive number: Halley's iteration on exp
RECURSIVE LnIter(_, _, _)
LnIter(x, y, n) == IF n = 0 THEN y
                   ELSE LET e == Exp(y) IN LnIter(x, RRound(y \oplus (RMul(2, x \ominus e) \oslash (x \oplus e)), Bits), n - 1)
RECURSIVE LnPos(_)
LnPos(x) == IF RLt(2, x) THEN RAdd("1/2", LnPos(RRound(x \oslash ExpHalf, Bits))) ELSE LnIter(x, "0", 5)
Ln(x) == IF ~IsRat(x) \/ RLeq(x, 0) THEN "nan" ELSE IF RLt(x, "1/2") THEN RNeg(LnPos(RDiv(1, x))) ELSE LnPos(x)
Cosh(x) == RDiv(RAdd(Exp(x), Exp(RNeg(x))), 2)
Tanh(x) == RDiv(RSub(Exp(x), Exp(RNeg(x))), RAdd(Exp(x), Exp(RNeg(x))))

SqrtPi == Sqrt(Pi)
Sqrt2Pi == Sqrt(RMul(2, Pi))
=============================================================================
