-------------------------------- MODULE Noise --------------------------------
(***************************************************************************)
(* Linear noise generators: a sample is a linear function of independent   *)
(* numbers of unit variance, its response (a row).  The covariance of two  *)
(* samples is the product of their responses.                              *)
(*   Moving average of filter h:  xi(i) = sum_j h(j) w(i - j)              *)
(*   Periodic: the same with indices modulo M (a transform of length M)    *)
(***************************************************************************)
EXTENDS Rat

Cov(resp, i, j) == RDot(resp[i], resp[j])
\* responses of samples 1..n to the numbers -L+2 .. n (moving average), 1..M (periodic)
MovingAverage(h, n) ==
  LET L == Len(h) IN Eager([i \in 1..n |-> [k \in 1..(n + L - 1) |-> LET j == i - (k - L + 1) IN IF j \in 0..(L - 1) THEN h[j + 1] ELSE "0"]])
Periodic(h, n, M) ==
  LET L == Len(h) IN Eager([i \in 1..n |-> [k \in 1..M |-> RSum([j \in 1..L |-> IF (i - j + 1 - k) % M = 0 THEN h[j] ELSE "0"])]])
AutoCorr(h, g) == RSum([j \in 1..Len(h) |-> IF j + g <= Len(h) THEN h[j] \otimes h[j + g] ELSE "0"])
\* covariance matrix of a stationary noise with correlation function c (and backward one, from the most negative lag to lag -1)
Stationary(c, back, i, j) == IF i >= j THEN c[i - j + 1] ELSE IF Absent(back) THEN c[j - i + 1] ELSE back[Len(c) - (j - i)]
=============================================================================
