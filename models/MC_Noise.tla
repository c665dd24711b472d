------------------------------ MODULE MC_Noise ------------------------------
(***************************************************************************)
(* A filter grows one coefficient at a time.  In every reachable state the *)
(* noise it generates has the autocorrelation of the filter as covariance  *)
(* at every pair of times, for every number of samples; the periodic       *)
(* generator has it as well once the period leaves room for the samples    *)
(* and the filter, and with less room it does not for some filter; a       *)
(* stationary covariance matrix is constant along its diagonals and        *)
(* symmetric without a separate backward function.                         *)
(***************************************************************************)
EXTENDS Noise, TLC
CONSTANTS Vals, MaxL, MaxSamples
MCVals == {-1, 0, 2}
VARIABLES h
Init == \E v \in Vals : h = <<v>>
Next == Len(h) < MaxL /\ \E v \in Vals : h' = Append(h, v)
Spec == Init /\ [][Next]_h
L == Len(h)
Gap(i, j) == IF i > j THEN i - j ELSE j - i
MovingAverageRight == \A n \in 1..MaxSamples : LET r == MovingAverage(h, n) IN
   \A i, j \in 1..n : REq(Cov(r, i, j), AutoCorr(h, Gap(i, j)))
PeriodicRight == \A n \in 1..MaxSamples, extra \in 0..2 : LET r == Periodic(h, n, n + L - 1 + extra) IN
   \A i, j \in 1..n : REq(Cov(r, i, j), AutoCorr(h, Gap(i, j)))
\* one less is too short: the last sample meets the first
PeriodicTooShort == L > 1 /\ h[1] # 0 /\ h[L] # 0 => LET n == MaxSamples M == n + L - 2 r == Periodic(h, n, M) IN
   ~REq(Cov(r, 1, n), AutoCorr(h, n - 1))
Variance == \A g \in 1..L : RLeq(RAbs(AutoCorr(h, g)), AutoCorr(h, 0))
StationaryMatrix == LET c == [g \in 1..L |-> AutoCorr(h, g - 1)] IN
   \A i, j \in 1..L : /\ Stationary(c, "absent", i, j) = Stationary(c, "absent", j, i)
                      /\ (i < L /\ j < L) => Stationary(c, "absent", i + 1, j + 1) = Stationary(c, "absent", i, j)
                      /\ L > 1 => LET b == [k \in 1..(L - 1) |-> R(10 * k)] IN (i < L /\ j < L) => Stationary(c, b, i + 1, j + 1) = Stationary(c, b, i, j)
=============================================================================
