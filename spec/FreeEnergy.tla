----------------------------- MODULE FreeEnergy -----------------------------
(***************************************************************************)
(* Histogram of one dimensional samples: e.edges are the edges of the bins *)
(* and e.x the samples.  Derivative of the interpolating cubic spline.     *)
(***************************************************************************)
EXTENDS Basis

\* bin i (from 1) is (edge_i, edge_i+1], the first one with its lower edge
InBin(g, i, x) == (RLt(g[i], x) \/ (i = 1 /\ REq(g[1], x))) /\ RLeq(x, g[i + 1])
Members(e, i) == SelectSeq([k \in 1..Len(e.x) |-> k], LAMBDA k : InBin(e.edges, i, e.x[k]))
Bins(e) == Eager([i \in 1..(Len(e.edges) - 1) |-> Members(e, i)])

Mid(g, i) == (g[i] \oplus g[i + 1]) \oslash 2
\* derivative of the cubic spline through (g_i, y_i), at the g_i
SplineDer(g, y) ==
  LET n == Len(g)
      t == NotAKnot(g, 3)
      C == Eager([p \in 1..n |-> [i \in 1..n |-> SplineFn(t, 3, i - 1, 0, g[p])]])
      c == Eager(MSolve(C, [i \in 1..n |-> <<y[i]>>]))
      D == Eager([p \in 1..n |-> [i \in 1..n |-> SplineFn(t, 3, i - 1, 1, g[p])]])
  IN [p \in 1..n |-> RDot(D[p], [i \in 1..n |-> c[i][1]])]
=============================================================================
