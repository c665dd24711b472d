--------------------------- MODULE MC_Projection ---------------------------
(***************************************************************************)
(* Least squares on samples arriving one at a time (position x, velocity v *)
(* observable o; functions 1 and x).  In every reachable history with a    *)
(* regular Gram matrix the solution of the normal equations is the         *)
(* projection: no other coefficients are closer, the remainder is          *)
(* orthogonal to the functions, projecting twice changes nothing, it does  *)
(* not depend on the functions which span the space, and sample order does *)
(* not matter.                                                             *)
(* A rank deficient family (0, v), as the velocity functions of a basis    *)
(* with a constant are: the projected correlations lose nothing, and the   *)
(* kernel found in the range is the kernel found without the constant.     *)
(***************************************************************************)
EXTENDS Volterra, Correlation, TLC
CONSTANTS Vals, MaxN
VARIABLES xs, os
vars == <<xs, os>>
MCVals == {-1, 0, 2}
Init == xs = <<>> /\ os = <<>>
Sample(x, o) == Len(xs) < MaxN /\ xs' = Append(xs, x) /\ os' = Append(os, o)
Next == \E x, o \in Vals : Sample(x, o)
Spec == Init /\ [][Next]_vars
N == Len(xs)
Fs(T) == [k \in 1..N |-> <<T[1][1] \oplus (T[1][2] \otimes xs[k]), T[2][1] \oplus (T[2][2] \otimes xs[k])>>]   \* functions T (1, x)
Id2 == <<<<"1", "0">>, <<"0", "1">>>>
TT == <<<<"2", "1">>, <<"-1", "1">>>>
Tr(P) == [j \in 1..Len(P[1]) |-> [i \in 1..Len(P) |-> P[i][j]]]
Coeff(F, y) == MSolve(MMul(Tr(F), F), MMul(Tr(F), y))
Ycol(s) == [k \in 1..N |-> <<R(s[k])>>]
Regular2 == N > 0 /\ \E i, j \in 1..N : xs[i] # xs[j]
Res2(F, c, y) == LET d == MLin(1, y, "-1", MMul(F, c)) IN RSum([k \in 1..N |-> d[k][1] \otimes d[k][1]])
Best == Regular2 => LET F == Fs(Id2) y == Ycol(os) c == Eager(Coeff(F, y)) r == Res2(F, c, y) IN
   \A a, b \in {-1, 0, 1} : RLeq(r, Res2(F, MLin(1, c, 1, <<<<R(a)>>, <<R(b)>>>>), y))
Orthogonal == Regular2 => LET F == Fs(Id2) y == Ycol(os) c == Coeff(F, y) IN
   Close(MMul(Tr(F), MLin(1, y, "-1", MMul(F, c))), <<<<"0">>, <<"0">>>>, "0")
Idempotent == Regular2 => LET F == Fs(Id2) y == Ycol(os) p == Eager(MMul(F, Coeff(F, y))) IN Close(MMul(F, Coeff(F, p)), p, "0")
SpanOnly == Regular2 => LET F == Fs(Id2) G == Fs(TT) y == Ycol(os) IN Close(MMul(F, Coeff(F, y)), MMul(G, Coeff(G, y)), "0")
InSpace == Regular2 /\ (\E a, b \in Vals : \A k \in 1..N : os[k] = a + b * xs[k]) =>
   LET F == Fs(Id2) y == Ycol(os) IN Close(MMul(F, Coeff(F, y)), y, "0")

\* ---- rank deficient ----
V(k) == xs[k]      \* the samples, read as velocities: functions (0, v) projected by P = (0, 1)
ESer == <<[k \in 1..N |-> 0], [k \in 1..N |-> V(k)]>>
CC(S1, S2, n) == [i \in 1..Len(S1) |-> [j \in 1..Len(S2) |-> Corr(S1[i], S2[j], n)]]
Pm == <<<<"0", "1">>>>
Full == [n \in 1..N |-> CC(ESer, ESer, n - 1)]
FullD == [n \in 1..N |-> CC(ESer, <<os>>, n - 1)]
PB == [n \in 1..N |-> MMul(MMul(Pm, Full[n]), Tr(Pm))]
PD == [n \in 1..N |-> MMul(Pm, FullD[n])]
Alone == [n \in 1..N |-> CC(<<ESer[2]>>, <<ESer[2]>>, n - 1)]
AloneD == [n \in 1..N |-> CC(<<ESer[2]>>, <<os>>, n - 1)]
NothingLost == \A n \in 1..N : /\ Close(MMul(MMul(Tr(Pm), PB[n]), Pm), Full[n], "0")
                               /\ Close(MMul(Tr(Pm), PD[n]), FullD[n], "0")
SameKernel == N > 1 => /\ PB = Alone /\ PD = AloneD
                       /\ RectSol(PB, PD, "1/2", N - 1) = RectSol(Alone, AloneD, "1/2", N - 1)
=============================================================================
