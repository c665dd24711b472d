--------------------------- MODULE MC_Correlation ---------------------------
(***************************************************************************)
(* A streaming correlator: samples of two series arrive one at a time and  *)
(* a running sum is kept for every lag.  After every arrival the estimate  *)
(* it gives is the definition, and the padded circular transform computes  *)
(* the same; a transform padded less does not (checked as reachable).      *)
(***************************************************************************)
EXTENDS Correlation, TLC
CONSTANTS Vals, MaxN
MCVals == {-1, 0, 2}
VARIABLES a, b, sums
vars == <<a, b, sums>>

Init == a = <<>> /\ b = <<>> /\ sums = [n \in 0..MaxN-1 |-> "0"]
Sample(x, y) ==
  /\ Len(a) < MaxN
  /\ a' = Append(a, x) /\ b' = Append(b, y)
  /\ sums' = [n \in 0..MaxN-1 |-> IF n <= Len(a) THEN sums[n] \oplus (a'[Len(a) + 1 - n] \otimes y) ELSE sums[n]]
Next == \E x, y \in Vals : Sample(x, y)
Spec == Init /\ [][Next]_vars

N == Len(a)
Streaming == \A n \in 0..N-1 : (sums[n] \oslash (N - n)) = Corr(a, b, n)
PaddedIsDirect == N > 0 => \A n \in 0..N-1 : Circular(a, b, n, PadLen(N)) = Corr(a, b, n)
PadSuffices == N > 0 => PadLen(N) >= 2 * N - 1
\* bounds and symmetries
ZeroLagPositive == N > 0 => RLeq(0, Corr(a, a, 0))
CauchySchwarz == N > 0 => RLeq(Corr(a, b, 0) \otimes Corr(a, b, 0), Corr(a, a, 0) \otimes Corr(b, b, 0))
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
TimeReversal == \A n \in 0..N-1 : Corr(Reverse(b), Reverse(a), n) = Corr(a, b, n)
ConstantIsUnbiased == (N > 0 /\ \A i \in 1..N : a[i] = a[1] /\ b[i] = b[1]) => \A n \in 0..N-1 : Corr(a, b, n) = (R(a[1]) \otimes b[1])
Bilinear == \A n \in 0..N-1 : Corr([i \in 1..N |-> a[i] + b[i]], b, n) = (Corr(a, b, n) \oplus Corr(b, b, n))
=============================================================================
