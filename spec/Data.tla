-------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* What is taken from a collection of trajectories as a whole: the number  *)
(* of lags kept, and the description of all samples.                       *)
(***************************************************************************)
EXTENDS Rat

\* the times of the first trajectory up to the truncation time, and at most to the end of the shortest trajectory
TruncOf(times, trunc) ==
  LET last == [i \in 1..Len(times) |-> times[i][Len(times[i])]]
      cut == RMinOf(<<trunc, RMinOf(last)>>)
  IN Len(SelectSeq(times[1], LAMBDA t : RLeq(t, cut)))

\* pooled description of several blocks of samples (each a samples x dim array)
Col(x, c) == [i \in 1..Len(x) |-> x[i][c]]
All(xs, c) == LET f[i \in 1..Len(xs)] == IF i = 1 THEN Col(xs[1], c) ELSE f[i - 1] \o Col(xs[i], c) IN f[Len(xs)]
PooledMean(xs, c) == LET y == Eager(All(xs, c)) IN RSum(y) \oslash Len(y)
PooledVar(xs, c) == LET y == Eager(All(xs, c)) m == RSum(y) \oslash Len(y) IN
  RDot([i \in 1..Len(y) |-> y[i] \ominus m], [i \in 1..Len(y) |-> y[i] \ominus m]) \oslash (Len(y) - 1)
\* central moments of order 2, 3, 4 (each divided by the number of samples)
Moments(y) ==
  LET n == Len(y)  m == RSum(y) \oslash n
      d == Eager([i \in 1..n |-> y[i] \ominus m])  d2 == Eager([i \in 1..n |-> d[i] \otimes d[i]])
  IN [n |-> n, mean |-> m, m2 |-> RSum(d2) \oslash n, m3 |-> RDot(d2, d) \oslash n, m4 |-> RDot(d2, d2) \oslash n]
\* the moments of the union of two blocks, from those of the blocks
Merge(p, q) ==
  LET n == p.n + q.n
      m == ((p.mean \otimes p.n) \oplus (q.mean \otimes q.n)) \oslash n
      e(b) == b.mean \ominus m
      sh2(b) == b.m2 \oplus (e(b) \otimes e(b))
      sh3(b) == b.m3 \oplus (RMul(3, e(b)) \otimes b.m2) \oplus (e(b) \otimes e(b) \otimes e(b))
      sh4(b) == b.m4 \oplus (RMul(4, e(b)) \otimes b.m3) \oplus (RMul(6, e(b) \otimes e(b)) \otimes b.m2) \oplus (e(b) \otimes e(b) \otimes e(b) \otimes e(b))
      avg(f(_)) == ((f(p) \otimes p.n) \oplus (f(q) \otimes q.n)) \oslash n
  IN [n |-> n, mean |-> m, m2 |-> avg(sh2), m3 |-> avg(sh3), m4 |-> avg(sh4)]
=============================================================================
