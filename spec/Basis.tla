------------------------------- MODULE Basis -------------------------------
(***************************************************************************)
(* The basis functions.  Every elementary basis is a family of functions   *)
(* f_0 .. f_{K-1} of one variable; in dimension d the basis has K d        *)
(* functions, number n d + c being f_n of coordinate c.                    *)
(*                                                                         *)
(* A basis b is a record: kind, and its parameters.  Fn(b, n, r, x) is the *)
(* r-th derivative of f_n at x (r = 0, 1, 2), or a primitive (r = -1).     *)
(***************************************************************************)
EXTENDS Reals

\* ---- polynomials as coefficient sequences, lowest first ---------------------
PAdd(p, q) == Eager([i \in 1..MaxI(Len(p), Len(q)) |-> (IF i <= Len(p) THEN p[i] ELSE "0") \oplus (IF i <= Len(q) THEN q[i] ELSE "0")])
PScale(c, p) == Eager([i \in 1..Len(p) |-> c \otimes p[i]])
PShift(p) == <<"0">> \o p                     \* x p
PDer(p) == IF Len(p) <= 1 THEN <<"0">> ELSE Eager([i \in 1..(Len(p) - 1) |-> i \otimes p[i + 1]])
PInt(p) == <<"0">> \o Eager([i \in 1..Len(p) |-> p[i] \oslash i])
RECURSIVE PEvalFrom(_, _, _)
PEvalFrom(p, x, i) == IF i > Len(p) THEN "0" ELSE p[i] \oplus (x \otimes PEvalFrom(p, x, i + 1))
PEval(p, x) == PEvalFrom(p, x, 1)
PMul(p, q) == Eager([k \in 1..(Len(p) + Len(q) - 1) |-> RSum([i \in 1..Len(p) |-> IF k - i + 1 >= 1 /\ k - i + 1 <= Len(q) THEN p[i] \otimes q[k - i + 1] ELSE "0"])])

\* three term recurrences P_{n+1} = (a + b x) P_n + c P_{n-1}, with P_0 = 1 and P_1
Rec(fam, n) ==
  CASE fam = "Polynomial" -> <<"0", "1", "0">>
    [] fam = "Chebyshev"  -> <<"0", "2", "-1">>
    [] fam = "Legendre"   -> <<"0", RDiv(2 * n + 1, n + 1), RDiv(-n, n + 1)>>
    [] fam = "Hermite"    -> <<"0", "2", R(-2 * n)>>
    [] fam = "HermiteE"   -> <<"0", "1", R(-n)>>
    [] fam = "Laguerre"   -> <<RDiv(2 * n + 1, n + 1), RDiv(-1, n + 1), RDiv(-n, n + 1)>>
P1Of(fam) == CASE fam = "Hermite" -> <<"0", "2">> [] fam = "Laguerre" -> <<"1", "-1">> [] OTHER -> <<"0", "1">>
RECURSIVE Poly(_, _)
Poly(fam, n) ==
  IF n = 0 THEN <<"1">> ELSE IF n = 1 THEN P1Of(fam)
  ELSE LET p == Poly(fam, n - 1)  r == Rec(fam, n - 1)
       IN PAdd(PAdd(PScale(r[1], p), PScale(r[2], PShift(p))), PScale(r[3], Poly(fam, n - 2)))

PolyFn(fam, n, r, x) ==
  LET p == Poly(fam, n) IN
  CASE r = 0 -> PEval(p, x) [] r = 1 -> PEval(PDer(p), x) [] r = 2 -> PEval(PDer(PDer(p)), x) [] r = -1 -> PEval(PInt(p), x)

\* ---- Fourier: constant, sin w x, cos w x, sin 2 w x, ...; orthonormal on a period -----
FourierFn(freq, n, r, x) ==
  LET k == (n + 1) \div 2
      w == k \otimes freq
      s == RDiv(1, SqrtPi)
  IN IF n = 0 THEN LET c == RDiv(1, Sqrt2Pi) IN CASE r = 0 -> c [] r = -1 -> c \otimes x [] OTHER -> "0"
     ELSE LET S == Sin(w \otimes x)  C == Cos(w \otimes x)
              isSin == n % 2 = 1
          IN CASE r = 0 -> s \otimes (IF isSin THEN S ELSE C)
               [] r = 1 -> (s \otimes w) \otimes (IF isSin THEN C ELSE RNeg(S))
               [] r = 2 -> RNeg(((s \otimes w) \otimes w) \otimes (IF isSin THEN S ELSE C))
               [] r = -1 -> (s \oslash w) \otimes (IF isSin THEN RNeg(C) ELSE S)

\* ---- B-splines on a knot sequence t (positions from 0), degree k --------------------------
\* the piece containing x: right-continuous, the last non-empty piece includes its end
Piece(t, k, x) ==
  LET nc == Len(t) - k - 1
      cand == {m \in k..(nc - 1) : RLt(At(t, m), At(t, m + 1)) /\ (RLeq(At(t, m), x))}
  IN IF cand = {} THEN CHOOSE m \in k..(nc - 1) : RLt(At(t, m), At(t, m + 1)) /\ \A m2 \in k..(m - 1) : ~RLt(At(t, m2), At(t, m2 + 1))
     ELSE CHOOSE m \in cand : \A m2 \in cand : m2 <= m
SafeDiv(a, b) == IF REq(b, "0") THEN "0" ELSE RDiv(a, b)
RECURSIVE BSpl(_, _, _, _, _)
BSpl(t, m, i, k, x) ==     \* B_{i,k}(x) for x in piece m: Cox-de Boor
  IF k = 0 THEN (IF i = m THEN "1" ELSE "0")
  ELSE IF i > m \/ i < m - k THEN "0"
  ELSE (SafeDiv(x \ominus At(t, i), At(t, i + k) \ominus At(t, i)) \otimes BSpl(t, m, i, k - 1, x))
       \oplus (SafeDiv(At(t, i + k + 1) \ominus x, At(t, i + k + 1) \ominus At(t, i + 1)) \otimes BSpl(t, m, i + 1, k - 1, x))
RECURSIVE BSplD(_, _, _, _, _, _)
BSplD(t, m, i, k, r, x) ==   \* r-th derivative
  IF r = 0 THEN BSpl(t, m, i, k, x)
  ELSE IF k = 0 THEN "0"
  ELSE (k \otimes SafeDiv(BSplD(t, m, i, k - 1, r - 1, x), At(t, i + k) \ominus At(t, i)))
       \ominus (k \otimes SafeDiv(BSplD(t, m, i + 1, k - 1, r - 1, x), At(t, i + k + 1) \ominus At(t, i + 1)))
\* primitive of B_{i,k}: w times the sum of the B_{j,k+1}, j >= i, on the knots with both ends repeated once more
Ext(t) == <<t[1]>> \o t \o <<t[Len(t)]>>
BSplI(t, m, i, k, x) ==
  LET te == Ext(t)  w == (At(t, i + k + 1) \ominus At(t, i)) \oslash (k + 1)
  IN w \otimes RSum([j \in 1..(Len(te) - k - 2) |-> IF j - 1 > i THEN BSpl(te, m + 1, j - 1, k + 1, x) ELSE "0"])
SplineFn(t, k, i, r, x) == LET m == Piece(t, k, x) IN IF r = -1 THEN BSplI(t, m, i, k, x) ELSE BSplD(t, m, i, k, r, x)

\* knots of the interpolating spline of degree k through the abscissas g: not-a-knot
NotAKnot(g, k) ==
  LET n == Len(g)  h == k \div 2
      inner(l) == IF k % 2 = 1 THEN At(g, h + l) ELSE (At(g, h + l) \oplus At(g, h + l - 1)) \oslash 2     \* l = 1 .. n-k-1
  IN Eager([j \in 1..(n + k + 1) |-> IF j <= k + 1 THEN g[1] ELSE IF j > n THEN g[n] ELSE inner(j - k - 1)])
Regular(a, b, n) == [j \in 1..n |-> a \oplus ((b \ominus a) \otimes RDiv(j - 1, n - 1))]

\* a given linear combination of B-splines
SplineComb(t, k, c, r, x) ==
  LET m == Piece(t, k, x) IN
  RSum([i \in 1..Len(c) |-> c[i] \otimes (IF r = -1 THEN BSplI(t, m, i - 1, k, x) ELSE BSplD(t, m, i - 1, k, r, x))])

\* ---- smooth indicators of the states separated by transition intervals ---------------------
TransPoly(shape) ==   \* as a polynomial in u
  LET one_u2 == <<"1", "0", "-1">>  one_u3 == <<"1", "0", "0", "-1">>
  IN CASE shape = "quartic" -> PMul(one_u2, one_u2)
       [] shape = "triweight" -> PMul(one_u2, PMul(one_u2, one_u2))
       [] shape = "tricube" -> PMul(one_u3, PMul(one_u3, one_u3))
       [] shape = "smoothstep" -> <<"1", "0", "-3", "2">>
\* 1 before the interval, 0 after it
Transition(shape, iv, r, x) ==
  LET a == RMinOf(iv)  b == RMaxOf(iv)  w == b \ominus a  u == (x \ominus a) \oslash w  p == TransPoly(shape)
  IN IF RLt(u, "0") THEN (IF r = 0 THEN "1" ELSE "0")
     ELSE IF RLt("1", u) THEN "0"
     ELSE CASE r = 0 -> PEval(p, u) [] r = 1 -> PEval(PDer(p), u) \oslash w [] r = 2 -> PEval(PDer(PDer(p)), u) \oslash (w \otimes w)
\* state n: between transition n-1 and transition n
IndicatorFn(b, n, r, x) ==
  LET ns == Len(b.states)
      T(i) == IF i < 0 THEN "0" ELSE IF i >= ns THEN (IF r = 0 THEN "1" ELSE "0") ELSE Transition(b.shape, b.states[i + 1], r, x)
      plain(i) == T(i) \ominus T(i - 1)
  IN IF b.periodic /\ n = 0 THEN plain(0) \oplus plain(ns) ELSE plain(n)

\* ---- a basis ---------------------------------------------------------------------------------
\* number of functions per coordinate
NFn(b) == CASE b.kind = "poly" -> b.deg + 1
            [] b.kind = "fourier" -> 2 * b.order + 1
            [] b.kind = "bspline" -> b.n
            [] b.kind = "linear" -> 1
            [] b.kind = "splinefct" -> 1
            [] b.kind = "indicator" -> IF b.periodic THEN Len(b.states) ELSE Len(b.states) + 1
Knots(b) == NotAKnot(b.grid, b.k)
Fn(b, n, r, x, c) ==    \* c: coordinate, for the bases centred coordinate by coordinate
  CASE b.kind = "poly" -> PolyFn(b.family, n, r, x)
    [] b.kind = "fourier" -> FourierFn(b.freq, n, r, x)
    [] b.kind = "bspline" -> SplineFn(Knots(b), b.k, n, r, x)
    [] b.kind = "linear" -> LET m == At(b.center, c) IN
          (CASE r = 0 -> x \ominus m [] r = 1 -> "1" [] r = 2 -> "0" [] r = -1 -> ((x \otimes x) \oslash 2) \ominus (m \otimes x))
    [] b.kind = "splinefct" -> SplineComb(b.knots, b.k, b.coeffs, r, x)
    [] b.kind = "indicator" -> IndicatorFn(b, n, r, x)
\* the functions which have gradients: the constant is left out when it is removed (B-splines: the last one)
DFirst(b) == IF b.removed /\ b.kind \in {"poly", "fourier"} THEN 1 ELSE 0
NDFn(b) == IF b.removed /\ b.kind \in {"poly", "fourier", "bspline"} THEN NFn(b) - 1 ELSE NFn(b)
=============================================================================
