-------------------------------- MODULE Fit --------------------------------
(***************************************************************************)
(* Functional forms of a memory kernel.                                    *)
(*   Form(type, p, t)      value at time t with parameters p               *)
(*   DForm(type, p, t)     its derivatives by the parameters               *)
(* The Prony series y0 * (expm(t A))[0,0] of parameters <<y0, A>> has its  *)
(* own operators: PronyPow gives its values at multiples of one step.      *)
(***************************************************************************)
EXTENDS Reals

Canonical(type) ==
  CASE type \in {"exp", "exponential"} -> "exp"
    [] type \in {"expnorm", "exp_norm"} -> "expnorm"
    [] type \in {"doubleexpnorm", "double_exp_norm"} -> "double"
    [] OTHER -> type
NParams(type) == CASE Canonical(type) = "expnorm" -> 1 [] Canonical(type) \in {"double", "sech"} -> 3 [] OTHER -> 2

PowE(x, y) == Exp(RRound(y \otimes Ln(x), 140))     \* x^y for x > 0

Form(type, p, t) ==
  LET c == Canonical(type) IN
  CASE c = "exp" -> p[1] \otimes Exp(RNeg(p[2] \otimes t))
    [] c = "expnorm" -> Exp(RNeg(p[1] \otimes t))
    [] c = "double" -> (p[3] \otimes Exp(RNeg(p[1] \otimes t))) \oplus (RSub(1, p[3]) \otimes Exp(RNeg(p[2] \otimes t)))
    [] c = "sech" -> p[1] \otimes PowE(Cosh(p[2] \otimes t), RNeg(p[3]))
    [] c = "sech_one" -> p[1] \oslash Cosh(p[2] \otimes t)
    [] c = "sech_two" -> LET h == Cosh(p[2] \otimes t) IN p[1] \oslash (h \otimes h)
    [] c = "gaussian" -> p[1] \otimes Exp(RNeg(p[2] \otimes (t \otimes t)))

DForm(type, p, t) ==
  LET c == Canonical(type) IN
  CASE c = "exp" -> LET E == Exp(RNeg(p[2] \otimes t)) IN <<E, RNeg(p[1] \otimes (t \otimes E))>>
    [] c = "expnorm" -> <<RNeg(t \otimes Exp(RNeg(p[1] \otimes t)))>>
    [] c = "double" -> LET E == Exp(RNeg(p[1] \otimes t)) G == Exp(RNeg(p[2] \otimes t)) IN
         <<RNeg(p[3] \otimes (t \otimes E)), RNeg(RSub(1, p[3]) \otimes (t \otimes G)), E \ominus G>>
    [] c = "sech" -> LET h == Cosh(p[2] \otimes t) S == PowE(h, RNeg(p[3])) IN
         <<S, RNeg((p[1] \otimes S) \otimes (p[3] \otimes (t \otimes Tanh(p[2] \otimes t)))), RNeg((p[1] \otimes S) \otimes Ln(h))>>
    [] c = "sech_one" -> LET S == RDiv(1, Cosh(p[2] \otimes t)) IN <<S, RNeg((p[1] \otimes S) \otimes (t \otimes Tanh(p[2] \otimes t)))>>
    [] c = "sech_two" -> LET h == Cosh(p[2] \otimes t) S == RDiv(1, h \otimes h) IN <<S, RNeg((p[1] \otimes S) \otimes (RMul(2, t) \otimes Tanh(p[2] \otimes t)))>>
    [] c = "gaussian" -> LET E == Exp(RNeg(p[2] \otimes (t \otimes t))) IN <<E, RNeg(p[1] \otimes ((t \otimes t) \otimes E))>>

Rd2(v) == RRound(v, 110)

\* ---- matrix exponential ---------------------------------------------------
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
MScale(a, P) == MLin(a, P, 0, P)
RECURSIVE ExpSeries(_, _, _, _, _)
\* acc + term + term.P/(k+1) + ...
ExpSeries(term, P, k, kmax, acc) ==
  IF k >= kmax THEN acc
  ELSE LET n == MRound(MScale(RDiv(1, k + 1), MMul(term, P)), 160)
       IN ExpSeries(n, P, k + 1, kmax, MLin(1, acc, 1, n))
RECURSIVE Squarings(_, _)
Squarings(P, s) == IF s = 0 THEN P ELSE Squarings(MRound(MMul(P, P), 140), s - 1)
RECURSIVE Halvings(_)
Halvings(x) == IF RLeq(x, "1/2") THEN 0 ELSE 1 + Halvings(RDiv(x, 2))
RECURSIVE Pow2(_)
Pow2(s) == IF s = 0 THEN 1 ELSE 2 * Pow2(s - 1)
MExp(P) ==
  LET n == Len(P)
      s == Halvings(RMul(n, MaxAbs(P)))
      Q == MScale(RDiv(1, Pow2(s)), P)
  IN Squarings(ExpSeries(Ident(n), Q, 0, 36, Ident(n)), s)

PronyAt(y0, Am, t) == y0 \otimes MExp(MScale(t, Am))[1][1]
\* first rows of E^0, E^1, ..., E^(n-1)
RECURSIVE PowRows(_, _, _, _)
PowRows(E, row, n, acc) == IF n = 0 THEN acc ELSE PowRows(E, MRound(MMul(row, E), 140), n - 1, Append(acc, row[1]))
PronyPow(y0, Am, dt, n) ==
  LET E == Eager(MExp(MScale(dt, Am)))
      rows == Eager(PowRows(E, <<[j \in 1..Len(Am) |-> IF j = 1 THEN "1" ELSE "0"]>>, n, <<>>))
  IN [k \in 1..n |-> y0 \otimes rows[k][1]]
=============================================================================
