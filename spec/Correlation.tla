---------------------------- MODULE Correlation ----------------------------
(***************************************************************************)
(* Lagged correlations of finite time series.                              *)
(*   C(n) = < a(t) b(t+n) >, the mean over the N - n pairs at that lag.    *)
(* Series are sequences (time from 0), lags run over 0 .. L-1 where        *)
(* L = min(N, trunc).                                                      *)
(***************************************************************************)
EXTENDS Rat

NLags(N, trunc) == IF trunc < 0 THEN N ELSE MinI(N, trunc)   \* trunc < 0: no truncation

Pairs(a, b, n) == RDot(SubSeq(a, 1, Len(a) - n), SubSeq(b, n + 1, Len(a)))
PairsAbs(a, b, n) == RDotAbs(SubSeq(a, 1, Len(a) - n), SubSeq(b, n + 1, Len(a)))
Corr(a, b, n) == Pairs(a, b, n) \oslash (Len(a) - n)
CorrScale(a, b, n) == PairsAbs(a, b, n) \oslash (Len(a) - n)

\* The same quantity through a circular transform of length M: exact iff M >= 2N - 1 (zero padding)
Pad(a, M) == [i \in 1..M |-> IF i <= Len(a) THEN a[i] ELSE 0]
Circular(a, b, n, M) ==
  RSum([t \in 1..M |-> Pad(a, M)[t] \otimes Pad(b, M)[((t - 1 + n) % M) + 1]]) \oslash (Len(a) - n)

\* length of the padded transform
RECURSIVE Pow2At(_, _)
Pow2At(N, p) == IF p >= N THEN p ELSE Pow2At(N, 2 * p)
PadLen(N) == 2 * Pow2At(N, 1)
=============================================================================
