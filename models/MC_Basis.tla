------------------------------ MODULE MC_Basis ------------------------------
(***************************************************************************)
(* Families of functions, grown one function (degree, number of splines,   *)
(* state boundary) at a time.  In every reachable family the definitions   *)
(* used as oracle have the properties the functions are known by:          *)
(*   polynomials: leading and end values, differentiation identities,      *)
(*   orthogonality (Legendre), primitives undone by derivatives;           *)
(*   Fourier: orthonormal on a period, second derivative -w^2 f;           *)
(*   B-splines: not negative, sum one, local, derivatives and primitives   *)
(*   consistent on every piece; interpolation of polynomials;              *)
(*   indicators: not negative, sum one, one inside the own state.          *)
(***************************************************************************)
EXTENDS Basis, TLC
CONSTANTS MaxDeg, MaxSpl, MaxStates
VARIABLES kind, n, par      \* n: degree, harmonic, number of B-splines, number of states
vars == <<kind, n, par>>
Fams == {"Polynomial", "Chebyshev", "Legendre", "Hermite", "HermiteE", "Laguerre"}
Shapes == {"quartic", "triweight", "tricube", "smoothstep"}
Init == \/ kind = "poly" /\ n = 0 /\ par \in Fams
        \/ kind = "fourier" /\ n = 1 /\ par \in {"1", "1/2"}
        \/ kind = "bspline" /\ par \in 1..3 /\ n = par + 1
        \/ kind = "indicator" /\ n = 2 /\ par \in Shapes \X BOOLEAN
Cap == CASE kind = "poly" -> MaxDeg [] kind = "fourier" -> 2 [] kind = "bspline" -> MaxSpl [] kind = "indicator" -> MaxStates
Grow == n < Cap /\ n' = n + 1 /\ UNCHANGED <<kind, par>>
Next == Grow
Spec == Init /\ [][Next]_vars
Fine == "1/1000000000000000000000000000000"
Near(a, b) == WithinTol(a, b, "0", Fine)

\* ---- polynomials ----
RECURSIVE Pw(_, _)
Pw(x, k) == IF k = 0 THEN "1" ELSE x \otimes Pw(x, k - 1)
PIntegral(p, a, b) == PEval(PInt(p), b) \ominus PEval(PInt(p), a)
Pts == {"-1", "-1/3", "0", "2/5", "1"}
PolyDegree == kind = "poly" => Len(Poly(par, n)) = n + 1 /\ ~REq(Poly(par, n)[n + 1], "0")
PolyKnown == kind = "poly" => LET p == Poly(par, n) q == IF n > 0 THEN Poly(par, n - 1) ELSE <<"0">> IN
  CASE par = "Polynomial" -> \A x \in Pts : REq(PEval(p, x), Pw(x, n))
    [] par = "Chebyshev" -> /\ REq(PEval(p, 1), 1) /\ REq(PEval(p, "-1"), Pw("-1", n))
                            \* (1 - x^2) T'' - x T' + n^2 T = 0
                            /\ \A x \in Pts : REq(((1 \ominus (x \otimes x)) \otimes PolyFn(par, n, 2, x)) \ominus (x \otimes PolyFn(par, n, 1, x)) \oplus ((n * n) \otimes PolyFn(par, n, 0, x)), "0")
    [] par = "Legendre" -> /\ REq(PEval(p, 1), 1)
                           /\ \A k \in 0..n : REq(PIntegral(PMul(p, Poly(par, k)), "-1", "1"), IF k = n THEN RDiv(2, 2 * n + 1) ELSE "0")
    [] par = "Hermite" -> \A x \in Pts : REq(PolyFn(par, n, 1, x), (2 * n) \otimes PEval(q, x))
    [] par = "HermiteE" -> \A x \in Pts : REq(PolyFn(par, n, 1, x), n \otimes PEval(q, x))
    [] par = "Laguerre" -> /\ REq(PEval(p, 0), 1)
                           \* x L'' + (1 - x) L' + n L = 0
                           /\ \A x \in Pts : REq((x \otimes PolyFn(par, n, 2, x)) \oplus ((1 \ominus x) \otimes PolyFn(par, n, 1, x)) \oplus (n \otimes PolyFn(par, n, 0, x)), "0")
PolyPrimitive == kind = "poly" => PDer(PInt(Poly(par, n))) = Poly(par, n)

\* ---- Fourier: on M equidistant points of a period sums are integrals ----
FPts == LET M == 12 IN [k \in 1..M |-> (RMul(2, Pi) \oslash par) \otimes RDiv(k, M)]
FourierOrthonormal == kind = "fourier" => \A i, j \in 0..(2 * n) :
   LET s == RSum([k \in 1..12 |-> FourierFn(par, i, 0, FPts[k]) \otimes FourierFn(par, j, 0, FPts[k])])
   IN Near(s \otimes (RMul(2, Pi) \oslash 12), IF i = j THEN 1 ELSE 0)
FourierDerivatives == kind = "fourier" => \A i \in 0..(2 * n), k \in {1, 4, 7} :
   LET h == (i + 1) \div 2 w == h \otimes par x == FPts[k] IN
   /\ Near(FourierFn(par, i, 2, x), RNeg((w \otimes w) \otimes FourierFn(par, i, 0, x)))
   /\ i > 0 => Near(FourierFn(par, i, 1, x), RNeg((w \otimes w) \otimes FourierFn(par, i, -1, x)))

\* ---- B-splines ----
Gr(m) == Eager([j \in 1..m |-> (j * j) \otimes "1/4"])     \* unequal abscissas
T == NotAKnot(Gr(n), par)
SX == {((Gr(n)[j] \otimes (4 - m)) \oplus (Gr(n)[j + 1] \otimes m)) \oslash 4 : j \in 1..(n - 1), m \in 0..4}
SplineUnity == kind = "bspline" => LET t == Eager(T) IN \A x \in SX :
   /\ \A i \in 0..(n - 1) : RLeq("0", SplineFn(t, par, i, 0, x))
   /\ REq(RSum([i \in 1..n |-> SplineFn(t, par, i - 1, 0, x)]), 1)
   /\ \A r \in 1..2 : REq(RSum([i \in 1..n |-> SplineFn(t, par, i - 1, r, x)]), 0)
SplineLocal == kind = "bspline" => LET t == Eager(T) IN \A x \in SX, i \in 0..(n - 1) :
   (RLt(x, At(t, i)) \/ RLt(At(t, i + par + 1), x)) => REq(SplineFn(t, par, i, 0, x), "0")
\* on one piece everything is a polynomial of degree <= 4: Simpson with the midpoint rule corrected is exact for cubics
Pieces == {j \in par..(n - 1) : RLt(At(T, j), At(T, j + 1))}
SimpsonOn(f(_), a, b) == ((b \ominus a) \oslash 6) \otimes (f(a) \oplus (4 \otimes f((a \oplus b) \oslash 2)) \oplus f(b))
SplineCalculus == kind = "bspline" => LET t == Eager(T) IN \A j \in Pieces, i \in 0..(n - 1) :
   LET a == At(t, j)  b == At(t, j + 1)  m == j
       I(x) == BSplI(t, m, i, par, x)
       F(r, x) == BSplD(t, m, i, par, r, x)
   IN /\ REq(I(b) \ominus I(a), SimpsonOn(LAMBDA x : F(0, x), a, b))
      /\ REq(F(0, b) \ominus F(0, a), SimpsonOn(LAMBDA x : F(1, x), a, b))
      /\ REq(F(1, b) \ominus F(1, a), SimpsonOn(LAMBDA x : F(2, x), a, b))
\* interpolation at the abscissas is possible, and it reproduces polynomials of the degree
SplineInterpolates == kind = "bspline" => LET t == Eager(T) g == Gr(n)
     C == Eager([p \in 1..n |-> [i \in 1..n |-> SplineFn(t, par, i - 1, 0, g[p])]]) IN
   \A d \in 0..par : LET c == Eager(MSolve(C, [p \in 1..n |-> <<Pw(g[p], d)>>])) IN
      \A x \in SX : REq(RSum([i \in 1..n |-> c[i][1] \otimes SplineFn(t, par, i - 1, 0, x)]), Pw(x, d))

\* ---- smooth indicators: n states, boundaries at 1, 4, 7, ... ----
IB == [kind |-> "indicator", shape |-> par[1], periodic |-> par[2], removed |-> FALSE,
       states |-> [i \in 1..(n - 1) |-> <<3 * i - 2, 3 * i - 1>>]]
IX == {RDiv(k, 4) : k \in 0..(12 * n)}
IndicatorUnity == kind = "indicator" => \A x \in IX :
   /\ REq(RSum([i \in 1..NFn(IB) |-> Fn(IB, i - 1, 0, x, 0)]), 1)
   /\ \A r \in 1..2 : REq(RSum([i \in 1..NFn(IB) |-> Fn(IB, i - 1, r, x, 0)]), 0)
   /\ \A i \in 1..NFn(IB) : RLeq("0", Fn(IB, i - 1, 0, x, 0))
IndicatorInside == kind = "indicator" => \A i \in 1..(n - 2), x \in IX :
   (RLeq(R(3 * i - 1), x) /\ RLeq(x, R(3 * i + 1))) => REq(Fn(IB, i, 0, x, 0), 1)
IndicatorSmooth == kind = "indicator" => \A i \in 1..(n - 1) :    \* values and slopes meet at both ends of the transition
   LET iv == <<3 * i - 2, 3 * i - 1>> IN
   /\ REq(Transition(par[1], iv, 0, iv[1]), 1) /\ REq(Transition(par[1], iv, 0, iv[2]), 0)
   /\ REq(Transition(par[1], iv, 1, iv[1]), 0) /\ REq(Transition(par[1], iv, 1, iv[2]), 0)
=============================================================================
