----------------------------- MODULE MC_Memory -----------------------------
(***************************************************************************)
(* A trajectory is recorded sample by sample (kernel function E, observable*)
(* minus mean force X, one of each), together with a kernel.  In every     *)
(* reachable history, for both rules                                       *)
(*  - the memory force is the running convolution, zero at the first time, *)
(*    causal, and linear in kernel and trajectory; a truncated kernel is   *)
(*    the kernel followed by zeros (rectangle rule);                       *)
(*  - propagating the noise n steps by the kernel gives, at starting time  *)
(*    s, the noise extracted at n from the trajectory cut at s: the two    *)
(*    operations are the same dynamics (for the rectangle rule up to the   *)
(*    term of the starting time, which it leaves out).                     *)
(***************************************************************************)
EXTENDS Memory, TLC
CONSTANTS Vals, MaxN, Kernels, Dt
MCVals == {-1, 1, 2}
MCKernels == { <<1, 2, -1, 3, 1>>, <<2, 0, 1, -2, 1>> }
VARIABLES es, xs, ker
vars == <<es, xs, ker>>
Init == es = <<>> /\ xs = <<>> /\ ker \in Kernels
Sample(e, x) == Len(es) < MaxN /\ es' = Append(es, e) /\ xs' = Append(xs, x) /\ UNCHANGED ker
Next == \E e \in Vals, x \in {0, 1} : Sample(e, x)
Spec == Init /\ [][Next]_vars
N == Len(es)
Rules == {"rect", "trapz"}
Col(s) == [k \in 1..Len(s) |-> <<R(s[k])>>]
Kf(s) == [j \in 1..Len(s) |-> <<<<R(s[j])>>>>]
Es == Col(es)  Xs == Col(xs)  K == Kf(ker)
Cut(S, a) == SubSeq(S, a + 1, Len(S))
NoiseOf(rule, E, X) == MLin(1, X, "-1", Mem(rule, E, K, Dt))

RECURSIVE Prop(_, _, _)
Prop(rule, X, n) == IF n = 0 THEN X ELSE PropStep(rule, Eager(Prop(rule, X, n - 1)), Es, K, n - 1, Dt)
SameDynamics == N > 1 => \A n \in 1..(N - 1), s \in 0..(N - 2) : s + n < N =>
   LET xi(rule) == Prop(rule, Xs, n)[s + 1][1]
       nz(rule) == NoiseOf(rule, Cut(Es, s), Cut(Xs, s))[n + 1][1]
   IN /\ REq(xi("trapz"), nz("trapz"))
      /\ REq(xi("rect") \oplus ((Dt \otimes es[s + 1]) \otimes ker[n + 1]), nz("rect"))
ZeroFirst == N > 0 => \A r \in Rules : REq(Mem(r, Es, K, Dt)[1][1], 0)
Causal == N > 1 => \A r \in Rules : SubSeq(Mem(r, Es, K, Dt), 1, N - 1) = Mem(r, SubSeq(Es, 1, N - 1), K, Dt)
Linear == N > 0 => \A r \in Rules :
   /\ Close(Mem(r, MLin(3, Es, 0, Es), K, Dt), MLin(3, Mem(r, Es, K, Dt), 0, Es), "0")
   /\ Close(Mem(r, Es, Kf([j \in 1..5 |-> 2 * ker[j]]), Dt), MLin(2, Mem(r, Es, K, Dt), 0, Es), "0")
TruncatedIsZeroed == N > 0 => \A m \in 1..4 :
   Close(Mem("rect", Es, SubSeq(K, 1, m), Dt), Mem("rect", Es, Kf([j \in 1..5 |-> IF j <= m THEN ker[j] ELSE 0]), Dt), "0")
\* the two rules differ by half of the two end terms
RuleDifference == N > 1 => \A i \in 1..(N - 1) : LET m == MinI(i, 4) IN
   REq(Mem("rect", Es, K, Dt)[i + 1][1] \ominus Mem("trapz", Es, K, Dt)[i + 1][1],
       RNeg((Dt \oslash 2) \otimes ((es[i + 1] \otimes ker[1]) \oplus (es[i + 1 - m] \otimes ker[m + 1]))))
NoKernelNoMemory == N > 0 => \A r \in Rules : MaxAbs(Mem(r, Es, Kf(<<0, 0>>), Dt)) = "0"
\* step n of the correlation uses N - n starting times
StartingTimes == N > 1 => \A r \in Rules, n \in 0..MinI(3, N - 1) : Len(Prop(r, Xs, n)) = N - n
=============================================================================
