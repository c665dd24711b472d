------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Noise of a trajectory: observable minus mean force minus memory force,  *)
(* the memory force being minus the convolution of the kernel functions    *)
(* along the past of the trajectory with the kernel (the first values of   *)
(* the kernel only, if it is truncated).                                   *)
(* Projected noise: the observable minus mean force propagated by the      *)
(* kernel, xi_0 = xi,  xi_{n+1}(t) = xi_n(t + dt) + E(t + dt) K_n dt       *)
(* (rectangle; trapezoid: half of it at both ends), and its correlation    *)
(* with another series at equal starting times.                            *)
(***************************************************************************)
EXTENDS Models

TrapRule(rule) == rule \in {"trapz", "second_kind_trapz"}

\* Es: time x kernel function (rows);  K: time_kernel x function x component
Part(S, a, b) == Eager([k \in 1..(b - a) |-> S[a + k]])     \* samples a .. b-1
\* weights of E(i-j) K(j), j = 0..m
MemW(rule, m, dt) ==
  [j \in 1..(m + 1) |-> IF TrapRule(rule) /\ (j = 1 \/ j = m + 1) THEN dt \oslash 2 ELSE R(dt)]
\* zero at the first time: nothing has been remembered
MemAt(rule, Es, K, dt, i) ==
  LET m == MinI(i, Len(K) - 1)
  IN IF i = 0 THEN [c \in 1..Len(K[1][1]) |-> "0"]
     ELSE MLin("-1", WConv(MemW(rule, m, dt), [j \in 1..(m + 1) |-> <<Es[i - j + 2]>>], [j \in 1..(m + 1) |-> K[j]]), 0, <<K[1][1]>>)[1]
Mem(rule, Es, K, dt) == Eager([i \in 1..Len(Es) |-> MemAt(rule, Es, K, dt, i - 1)])

\* rows by time
ERows(m, t, P) ==
  LET S == Eager(AllE(m, t))  n == NSteps(t)
      raw == Eager([k \in 1..n |-> [i \in 1..Len(S) |-> S[i][k]]])
  IN IF Absent(P) THEN raw ELSE Eager(MMul(raw, Transp(P)))
ForceRows(m, t, coeff) ==
  LET S == Eager(AllF(m, t))  n == NSteps(t)
  IN Eager(MMul(Eager([k \in 1..n |-> [i \in 1..Len(S) |-> S[i][k]]]), coeff))

\* ---- projected noise --------------------------------------------------------
\* one step: from the noise after n steps (starting times 0..N-n-1) to that after n+1 steps
PropStep(rule, X, Es, K, n, dt) ==
  LET N == Len(X)  h == IF TrapRule(rule) THEN dt \oslash 2 ELSE R(dt)
      one == MLin(1, Part(X, 1, N), h, MMul(Part(Es, 1, N), K[n + 1]))
  IN IF TrapRule(rule) THEN MLin(1, one, h, MMul(Part(Es, 0, N - 1), K[n + 2])) ELSE one
\* correlation with the left series at equal starting times: left component by noise component
EqCorr(Left, X) ==
  LET N == Len(X) IN MLin(RDiv(1, N), MMul(Transp(Part(Left, 0, N)), X), 0, MMul(Transp(Part(Left, 0, N)), X))
RECURSIVE PropCorrs(_, _, _, _, _, _, _)
PropCorrs(rule, X, Left, Es, K, dt, n) ==   \* the correlations from step n on
  LET last == (IF TrapRule(rule) THEN Len(K) - 2 ELSE Len(K) - 1)
      c == EqCorr(Left, X)
  IN IF n = last THEN <<c>>
     ELSE <<c>> \o PropCorrs(rule, Eager(PropStep(rule, X, Es, K, n, dt)), Left, Es, K, dt, n + 1)
=============================================================================
