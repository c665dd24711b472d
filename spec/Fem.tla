-------------------------------- MODULE Fem --------------------------------
(***************************************************************************)
(* Simplicial meshes and nodal finite elements.  A mesh is its vertices    *)
(* (d rows) and cells (d+1 rows of vertex numbers).  A nodal basis of      *)
(* degree k is determined by reproduction: the expansion with the values   *)
(* of a polynomial of degree k at the nodes is that polynomial.            *)
(***************************************************************************)
EXTENDS Rat

Dim(m) == Size(m.p)
NCells(m) == Size(At(m.t, 0))
Vertex(m, c, i) == [k \in 1..Dim(m) |-> At2(m.p, k - 1, At2(m.t, i, c))]

\* barycentric coordinates of x in cell c: a column of d + 1
Bary(m, c, x) ==
  LET d == Dim(m)
      A == Eager([k \in 1..(d + 1) |-> [i \in 1..(d + 1) |-> IF k <= d THEN At2(m.p, k - 1, At2(m.t, i - 1, c)) ELSE "1"]])
      b == [k \in 1..(d + 1) |-> << IF k <= d THEN x[k] ELSE "1" >>]
  IN MSolve(A, b)
Inside(m, c, x, tol) == LET w == Bary(m, c, x) IN \A i \in 0..Dim(m) : RLeq(RNeg(tol), At2(w, i, 0))

\* monomials of degree at most k in d variables, as exponent vectors
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN "1" ELSE x \otimes Pow(x, n - 1)
Exponents(d, k) == {f \in [1..d -> 0..k] : LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE f[i] + S(i - 1) IN S(d) <= k}
RECURSIVE Mono(_, _, _)
Mono(f, x, i) == IF i = 0 THEN "1" ELSE Pow(x[i], f[i]) \otimes Mono(f, x, i - 1)
Monomial(f, x) == Mono(f, x, Len(x))
DMonomial(f, x, c) == IF f[c] = 0 THEN "0" ELSE f[c] \otimes Monomial([f EXCEPT ![c] = @ - 1], x)

\* planar geometry: twice the signed area spanned by two vectors, and twice the area of triangle t of vertices W
Cross(ax, ay, bx, by) == (ax \otimes by) \ominus (ay \otimes bx)
Area2(W, t) == RAbs(Cross(At2(W, t[2], 0) \ominus At2(W, t[1], 0), At2(W, t[2], 1) \ominus At2(W, t[1], 1), At2(W, t[3], 0) \ominus At2(W, t[1], 0), At2(W, t[3], 1) \ominus At2(W, t[1], 1)))
=============================================================================
