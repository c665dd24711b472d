------------------------------ MODULE Volterra ------------------------------
(***************************************************************************)
(* Volterra equations between correlation functions and memory kernel:     *)
(*   first kind    D(t) = - int_0^t B(t-s) K(s) ds                         *)
(*   second kind   B(0) K(t) = DxB'(t) + int_0^t B'(t-s) K(s) ds           *)
(* and their discretisations on a grid of step dt.  B, D, Bd, Dd are       *)
(* sequences of matrices (position 0 is lag 0), a kernel is one as well.   *)
(*                                                                         *)
(* Each method is a state machine: the state is the kernel found so far,   *)
(* one step appends the next value, determined by the discretised equation *)
(* at the next time.  Eq(method, ...) is that equation as a relation on    *)
(* kernels, Step(method, ...) the step.                                    *)
(***************************************************************************)
EXTENDS Reals

M(S, n) == At(S, n)                        \* matrix at lag n
Zero(P) == MLin(0, P, 0, P)
Const(n, c) == [j \in 1..n |-> c]

\* sum over j = a..b of B(f(j)) K(j), as WConv arguments
BSeq(S, a, b, f(_)) == [j \in 1..(b - a + 1) |-> M(S, f(a + j - 1))]
KSeq(K, a, b) == [j \in 1..(b - a + 1) |-> M(K, a + j - 1)]

\* trapezoidal weights on 0..n
TrapW(n) == [j \in 1..(n + 1) |-> IF n = 0 THEN "0" ELSE IF j = 1 \/ j = n + 1 THEN "1/2" ELSE "1"]

\* ---- the discretised equations: left hand side, right hand side, scale ----
\* number of equations and lhs/rhs per method; i counts the equations from 0
RectLhs(B, K, dt, i) == WConv(Const(i + 1, dt), BSeq(B, 0, i, LAMBDA j : i + 1 - j), KSeq(K, 0, i))
RectAbs(B, K, dt, i) == WConvAbs(Const(i + 1, dt), BSeq(B, 0, i, LAMBDA j : i + 1 - j), KSeq(K, 0, i))

TrapLhs(B, K, dt, i) == WConv([j \in 1..(i + 1) |-> dt \otimes TrapW(i)[j]], BSeq(B, 0, i, LAMBDA j : i - j), KSeq(K, 0, i))
TrapAbs(B, K, dt, i) == WConvAbs([j \in 1..(i + 1) |-> dt \otimes TrapW(i)[j]], BSeq(B, 0, i, LAMBDA j : i - j), KSeq(K, 0, i))

\* midpoint: cells of width 2 dt around the even points, the first one cut at 0
MidW(i, dt) == [j \in 1..(i + 1) |-> IF j = 1 THEN dt ELSE 2 \otimes dt]
MidLhs(B, K, dt, i) == WConv(MidW(i, dt), BSeq(B, 0, i, LAMBDA j : 2 * (i - j) + 1), KSeq(K, 0, i))
MidAbs(B, K, dt, i) == WConvAbs(MidW(i, dt), BSeq(B, 0, i, LAMBDA j : 2 * (i - j) + 1), KSeq(K, 0, i))

\* second kind: the history integral leaves out (rectangle) or halves (trapezoid) the current point
Sk1W(i, dt) == [j \in 1..(i + 1) |-> IF j = i + 1 THEN "0" ELSE R(dt)]
SkLhs(B0, K, i) == MMul(B0, M(K, i))
SkRhs(w, Bd, Dd, K, i) == MLin(1, WConv(w, BSeq(Bd, 0, i, LAMBDA j : i - j), KSeq(K, 0, i)), 1, M(Dd, i))
SkAbs(w, Bd, K, i) == WConvAbs(w, BSeq(Bd, 0, i, LAMBDA j : i - j), KSeq(K, 0, i))

\* ---- the steps (each kernel value by one linear solve), values kept to 2^-Prec ----
Prec == 160
RECURSIVE RectSol(_, _, _, _)
RectSol(B, D, dt, n) ==     \* the first n values
  IF n = 0 THEN <<>> ELSE
  LET K == RectSol(B, D, dt, n - 1)  i == n - 1
      hist == IF i = 0 THEN Zero(M(D, 1)) ELSE WConv(Const(i, dt), BSeq(B, 0, i - 1, LAMBDA j : i + 1 - j), K)
  IN Append(K, MRound(MSolve(MLin(dt, M(B, 1), 0, M(B, 1)), MLin("-1", M(D, i + 1), "-1", hist)), Prec))

RECURSIVE TrapSol(_, _, _, _, _)
TrapSol(B, D, k0, dt, n) ==  \* values 0..n-1
  IF n <= 1 THEN <<k0>> ELSE
  LET K == TrapSol(B, D, k0, dt, n - 1)  i == n - 1
      w == [j \in 1..i |-> dt \otimes TrapW(i)[j]]
      hist == WConv(w, BSeq(B, 0, i - 1, LAMBDA j : i - j), K)
  IN Append(K, MRound(MSolve(MLin(dt \oslash 2, M(B, 0), 0, M(B, 0)), MLin("-1", M(D, i), "-1", hist)), Prec))

\* the trapezoidal kernel is smoothed, keeping its first value; one value shorter
Smooth(U, i) == IF i = 0 THEN M(U, 0)
                ELSE MLin("1/2", M(U, i), "1/4", MLin(1, M(U, i - 1), 1, M(U, i + 1)))

RECURSIVE MidSol(_, _, _, _)
MidSol(B, D, dt, n) ==
  IF n = 0 THEN <<>> ELSE
  LET K == MidSol(B, D, dt, n - 1)  i == n - 1
      m == IF i = 0 THEN dt ELSE 2 \otimes dt
      hist == IF i = 0 THEN Zero(M(D, 1))
              ELSE WConv([j \in 1..i |-> MidW(i, dt)[j]], BSeq(B, 0, i - 1, LAMBDA j : 2 * (i - j) + 1), K)
  IN Append(K, MRound(MSolve(MLin(m, M(B, 1), 0, M(B, 1)), MLin("-1", M(D, 2 * i + 1), "-1", hist)), Prec))
EveryThird(S) == [j \in 1..((Len(S) + 2) \div 3) |-> S[3 * (j - 1) + 1]]
Richardson(B, D, dt, i) ==
  LET k1 == MidSol(B, D, dt, 3 * i + 1)
      k3 == MidSol(EveryThird(B), EveryThird(D), 3 \otimes dt, i + 1)
  IN MLin("9/8", M(k1, 3 * i), "-1/8", M(k3, i))

K0(B, Dd) == MSolve(M(B, 0), M(Dd, 0))

\* ---- lengths and time grids ---------------------------------------------------
KernelLen(method, T) ==
  CASE method \in {"rect", "rectangular", "second_kind_rect", "second_kind_trapz"} -> T
    [] method = "trapz" -> T - 1
    [] method = "midpoint" -> T \div 2
    [] method = "midpoint_w_richardson" -> ((T + 2) \div 3) \div 2
KernelStride(method) == CASE method = "midpoint" -> 2 [] method = "midpoint_w_richardson" -> 6 [] OTHER -> 1

\* ---- forward evolution: dE/dt = E f - int_0^t E(t-s) K(s) ds -------------------
\* one implicit step; E is a sequence of matrices (other x basis), m the number of kernel intervals kept.
\* The oldest end point of the memory integral is left out (rectangle: the two oldest).
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
IdeLen(rule, i, L) == IF rule = "rect" THEN MinI(i, L) - 1 ELSE MinI(i, L)
IdeHalf(rule) == IF rule = "rect" THEN "1" ELSE "1/2"
IdeRhs(rule, E, K, f, dt, i) ==
  LET m == IdeLen(rule, i, Len(K) - 1)
      mem == IF m <= 1 THEN Zero(M(E, 0)) ELSE WConv(Const(m - 1, dt), BSeq(E, 1, m - 1, LAMBDA j : i - j), KSeq(K, 1, m - 1))
  IN MLin(1, MLin(1, M(E, i - 1), dt, MMul(M(E, i - 1), f)), RNeg(dt), mem)
IdeMat(rule, K, dt) == MLin(1, Ident(Len(K[1])), (IdeHalf(rule) \otimes dt) \otimes dt, K[1])
\* stabilised version: negative entries are removed and the total is one
Pos(P) == [i \in 1..Len(P) |-> [j \in 1..Len(P[1]) |-> RMaxOf(<<P[i][j], "0">>)]]
Total(P) == RSum([i \in 1..Len(P) |-> RSum(P[i])])

\* ---- flux: quadratures of the memory integral at each time, memory cut to the kernel ------
\* weights of f(0), .., f(n) on n intervals of length h
FluxW(rule, n, h, j) ==
  CASE rule = "rect" -> IF j = n THEN "0" ELSE R(h)
    [] rule = "trapz" \/ (rule = "simpson" /\ n < 2) -> IF j = 0 \/ j = n THEN h \oslash 2 ELSE R(h)
    [] rule = "simpson" ->
         LET s(k, m) == IF k = 0 \/ k = m THEN h \oslash 3 ELSE IF k % 2 = 1 THEN RDiv(4, 3) \otimes h ELSE RDiv(2, 3) \otimes h
         IN IF n % 2 = 0 THEN s(j, n)
            ELSE IF j = 0 THEN h \oslash 2 ELSE IF j = 1 THEN (h \oslash 2) \oplus (h \oslash 3) ELSE s(j - 1, n - 1)

\* composite Simpson rule on n points; with an even number of points the last interval uses the parabola through the last three
SimpsonW(n, h) ==
  LET odd(m, i) == IF i = 1 \/ i = m THEN RDiv(1, 3) ELSE IF i % 2 = 0 THEN RDiv(4, 3) ELSE RDiv(2, 3)
  IN Eager([i \in 1..n |-> h \otimes (
        IF n = 1 THEN "0" ELSE IF n = 2 THEN RDiv(1, 2)
        ELSE IF n % 2 = 1 THEN odd(n, i)
        ELSE (IF i < n THEN odd(n - 1, i) ELSE "0") \oplus (IF i = n THEN RDiv(5, 12) ELSE IF i = n - 1 THEN RDiv(2, 3) ELSE IF i = n - 2 THEN RDiv(-1, 12) ELSE "0"))])

\* ---- exact solutions: polynomial correlations and kernels, as sequences of coefficient matrices --------
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN "1" ELSE n \otimes Fact(n - 1)
RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN "1" ELSE x \otimes RPow(x, n - 1)
PolyM(C, t) == WConv([i \in 1..Len(C) |-> RPow(t, i - 1)], C, [i \in 1..Len(C) |-> Ident(Len(C[1][1]))])
\* int_0^t B(t-s) K(s) ds, with int_0^t (t-s)^a s^b ds = a! b! / (a+b+1)! t^(a+b+1)
ConvAt(Bc, Kc, t) ==
  LET na == Len(Bc)  nb == Len(Kc)
      a(k) == (k - 1) \div nb   b(k) == (k - 1) % nb
      w(k) == ((Fact(a(k)) \otimes Fact(b(k))) \oslash Fact(a(k) + b(k) + 1)) \otimes RPow(t, a(k) + b(k) + 1)
  IN WConv(Eager([k \in 1..(na * nb) |-> w(k)]), [k \in 1..(na * nb) |-> Bc[a(k) + 1]], [k \in 1..(na * nb) |-> Kc[b(k) + 1]])
DerC(C) == [i \in 1..MaxI(1, Len(C) - 1) |-> IF Len(C) = 1 THEN Zero(C[1]) ELSE MLin(i, C[i + 1], 0, C[i + 1])]
=============================================================================
