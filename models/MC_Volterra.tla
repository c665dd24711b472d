---------------------------- MODULE MC_Volterra ----------------------------
(***************************************************************************)
(* A generator of consistent data: at every step one more lag of the basis *)
(* correlation and one more kernel value arrive.  The observable           *)
(* correlation is the one the discretised equation gives.  In every        *)
(* reachable state each inversion gives the kernel back, and the inversion *)
(* is linear, equivariant under a change of basis and scales with the step.*)
(* The quadratures of the flux and of the Laplace transform integrate the  *)
(* polynomials of their degree exactly.                                    *)
(***************************************************************************)
EXTENDS Volterra, TLC
CONSTANTS MaxN, Dts, BChoice, KChoice
VARIABLES B, K, dt
vars == <<B, K, dt>>
Fine == "1/1000000000000000000000000000000"
Eq(a, b) == Close(a, b, Fine)

\* one function and one component (values), or two functions and two components
BScalar == { <<<<"2">>>>, <<<<"1">>>>, <<<<"-1">>>> }
KScalar == { <<<<"1">>>>, <<<<"0">>>>, <<<<"-3">>>> }
BMatrix == { <<<<"2", "1">>, <<"0", "1">>>>, <<<<"1", "0">>, <<"-1", "3">>>> }
KMatrix == { <<<<"1", "0">>, <<"2", "-1">>>>, <<<<"0", "3">>, <<"1", "1">>>> }

Init == /\ dt \in Dts /\ B \in {<<b0, b1>> : b0, b1 \in BChoice} /\ K \in {<<k>> : k \in KChoice}
Arrive(b, k) == Len(K) < MaxN /\ B' = Append(B, b) /\ K' = Append(K, k) /\ UNCHANGED dt
Next == \E b \in BChoice, k \in KChoice : Arrive(b, k)
Spec == Init /\ [][Next]_vars

N == Len(K)                       \* lags 0..N of B are known, values 0..N-1 of the kernel
Minus(P) == MLin("-1", P, 0, P)
\* observable correlations of the discretised equations
RectD == [i \in 1..(N + 1) |-> IF i = 1 THEN Zero(K[1]) ELSE Minus(RectLhs(B, K, dt, i - 2))]
TrapD == [i \in 1..N |-> IF i = 1 THEN Zero(K[1]) ELSE Minus(TrapLhs(B, K, dt, i - 1))]
MidN == (N + 1) \div 2            \* values of the midpoint kernel that B reaches
MidD == [i \in 1..(2 * MidN) |-> IF i % 2 = 1 THEN Zero(K[1]) ELSE Minus(MidLhs(B, K, dt, (i \div 2) - 1))]
SkD(w(_)) == [i \in 1..N |-> MLin(1, SkLhs(B[1], K, i - 1), "-1", WConv(w(i - 1), BSeq(B, 0, i - 1, LAMBDA j : i - 1 - j), KSeq(K, 0, i - 1)))]
Sk2W(i) == [j \in 1..(i + 1) |-> dt \otimes TrapW(i)[j]]
Sk1(i) == Sk1W(i, dt)

RectBack == Eq(RectSol(B, RectD, dt, N), K)
TrapBack == Eq(TrapSol(B, TrapD, K[1], dt, N), K)
MidBack == MidN > 0 => Eq(MidSol(B, MidD, dt, MidN), SubSeq(K, 1, MidN))
\* second kind (B doubles as its derivative: any pair will do): the same relation holds, with the same data
SecondBack == \A i \in 0..(N - 1) :
  /\ Eq(SkLhs(B[1], K, i), SkRhs(Sk1(i), B, SkD(Sk1), K, i))
  /\ Eq(SkLhs(B[1], K, i), SkRhs(Sk2W(i), B, SkD(Sk2W), K, i))
InitialValue == Eq(K0(B, SkD(Sk1)), MLin(1, K[1], 0, K[1]))

\* the kernel is linear in the observable correlation
Linear == LET D2 == [i \in 1..(N + 1) |-> MLin(2, RectD[i], 0, RectD[i])]
          IN Eq(RectSol(B, D2, dt, N), [i \in 1..N |-> MLin(2, K[i], 0, K[i])])
\* change of basis: E -> T E turns B into T B T', D into T D and the kernel into T'^-1 K
T == IF Len(B[1]) = 1 THEN <<<<"3">>>> ELSE <<<<"1", "2">>, <<"-1", "1">>>>
Tt == [i \in 1..Len(T) |-> [j \in 1..Len(T) |-> T[j][i]]]
Basis2 == LET B2 == [i \in 1..Len(B) |-> MMul(MMul(T, B[i]), Tt)]
              D2 == [i \in 1..(N + 1) |-> MMul(T, RectD[i])]
          IN Eq(RectSol(B2, D2, dt, N), [i \in 1..N |-> MSolve(Tt, K[i])])
\* a unit of time c times smaller: kernel values are c times smaller (first kind)
Rescale == Eq(RectSol(B, RectD, dt \otimes 3, N), [i \in 1..N |-> MLin("1/3", K[i], 0, K[i])])
\* the kernel found so far does not change when later lags arrive
Causal == N > 1 => Eq(RectSol(B, RectD, dt, N - 1), SubSeq(K, 1, N - 1))
\* smoothing leaves straight lines alone
SmoothLine == LET U == [i \in 1..(N + 2) |-> MLin(1, K[1], i, B[1])] IN Len(K[1][1]) = Len(B[1][1]) => \A i \in 0..N : Eq(Smooth(U, i), U[i + 1])

\* forward evolution: without kernel it is the explicit Euler scheme; with one the step is solved exactly
Evolve(rule, E0, f, n) ==
  LET Z == [j \in 1..(n + 1) |-> IF j <= Len(K) THEN K[j] ELSE Zero(K[1])]
      RECURSIVE Ev(_)
      Ev(i) == IF i = 0 THEN <<E0>> ELSE LET E == Ev(i - 1) IN
                 Append(E, MSolve(IdeMat(rule, Z, dt), IdeRhs(rule, E, Z, f, dt, i)))
  IN Ev(n)
EulerWithoutKernel == (Len(B[1]) = 1 /\ \A i \in 1..N : REq(K[i][1][1], "0")) =>
  \A rule \in {"rect", "trapz"} : LET E == Evolve(rule, <<<<"1">>>>, <<<<"-1/2">>>>, N) IN
    \A i \in 1..(N + 1) : Eq(E[i], <<<<RPow(1 \ominus (dt \oslash 2), i - 1)>>>>)

\* ---- quadratures ----
Grid(n) == [j \in 1..(n + 1) |-> dt \otimes (j - 1)]
Integral(w, n, p) == RSum([j \in 1..(n + 1) |-> w[j] \otimes RPow(Grid(n)[j], p)])
Exact(n, p) == RPow(dt \otimes n, p + 1) \oslash (p + 1)
Flux(rule, n) == [j \in 1..(n + 1) |-> FluxW(rule, n, dt, j - 1)]
Quadratures ==
  /\ \A n \in 1..(MaxN + 3) : REq(Integral(Flux("rect", n), n, 0), Exact(n, 0))
  /\ \A n \in 1..(MaxN + 3), p \in 0..1 : REq(Integral(Flux("trapz", n), n, p), Exact(n, p)) /\ REq(Integral(Flux("simpson", n), n, p), Exact(n, p))
  /\ \A n \in 1..(MaxN + 3), p \in 0..3 : n % 2 = 0 => REq(Integral(Flux("simpson", n), n, p), Exact(n, p))
  /\ \A n \in 2..(MaxN + 3), p \in 0..2 : REq(Integral(SimpsonW(n + 1, dt), n, p), Exact(n, p))
=============================================================================
