------------------------------ MODULE TraceFem ------------------------------
EXTENDS Fem, TraceBase
Tol == "1/1000000000"

BadFem(e) ==
  LET m == e.mesh  d == Dim(m)  np == Size(e.x)  N == Size(At(e.dofs, 0))
      ok(p) == Size(At(e.x, p)) = d
      cell(p) == At(e.cells, p)
      cellOk == Size(e.cells) = np /\ \A p \in Range0(np) : cell(p) \in Range0(NCells(m))
      X(p) == At(e.x, p)
      node(j) == [k \in 1..d |-> At2(e.dofs, k - 1, j)]
      local(p) == {At2(e.cdofs, i, cell(p)) : i \in Range0(Size(e.cdofs))}
      shape == HasShape(e.val, <<np, N>>)
      gshape == HasShape(e.grad, <<np, N, d>>)
      nodes == Eager([j \in 1..N |-> node(j - 1)])
  IN Clause("number-of-functions", e.nout = N)
     \cup Clause("point-in-its-element", cellOk /\ \A p \in Range0(np) : Inside(m, cell(p), X(p), "1/1000000000000"))
     \cup Clause("shape", shape /\ gshape)
     \cup (IF ~shape \/ ~gshape \/ ~cellOk THEN {} ELSE
       Clause("only-functions-of-the-element", \A p \in Range0(np), j \in Range0(N) : j \in local(p) \/ (At2(e.val, p, j) = "0" /\ \A c \in Range0(d) : At3(e.grad, p, j, c) = "0"))
       \cup Clause("reproduces-polynomials", \A f \in Exponents(d, e.degree) :
              LET co == Eager([j \in 1..N |-> Monomial(f, nodes[j])]) sc == MaxAbs(co) IN
              \A p \in Range0(np) : WithinTol(RDot(At(e.val, p), co), Monomial(f, X(p)), sc, Tol))
       \cup Clause("reproduces-gradients", \A f \in Exponents(d, e.degree) :
              LET co == Eager([j \in 1..N |-> Monomial(f, nodes[j])]) sc == MaxAbs(co) \otimes (1 \oplus MaxAbs(e.grad)) IN
              \A p \in Range0(np), c \in 1..d :
                WithinTol(RDot([j \in 1..N |-> At3(e.grad, p, j - 1, c - 1)], co), DMonomial(f, X(p), c), sc, Tol)))
     \cup Clause("points-unchanged", e.unchanged)

\* the location of points alone
BadFind(e) ==
  LET m == e.mesh  np == Size(e.x) IN
  Clause("point-in-its-element", Size(e.cells) = np /\ \A p \in Range0(np) : At(e.cells, p) \in Range0(NCells(m)) /\ Inside(m, At(e.cells, p), At(e.x, p), "1/1000000000000"))
  \cup Clause("points-unchanged", e.unchanged)

\* the force of an expansion on finite elements is the projection as for any other basis
BadForce(e) ==
  LET N == Size(At(e.bk, 0))  np == Size(e.bk)
      col(i) == [p \in 1..np |-> At2(e.bk, p - 1, i)]
      res(c) == [p \in 1..np |-> At2(e.obs, p - 1, c) \ominus RDot(At(e.bk, p - 1), [j \in 1..N |-> At2(e.coeff, j - 1, c)])]
  IN Clause("orthogonal-residual", HasShape(e.coeff, <<N, Size(At(e.obs, 0))>>) /\
       \A c \in Range0(Size(At(e.obs, 0))) : LET r == Eager(res(c)) IN \A i \in Range0(N) : WithinTol(RDot(col(i), r) \oslash np, 0, MaxAbs(e.obs) \oplus MaxAbs(e.coeff), "1/10000000"))

\* ---- mesh construction --------------------------------------------------------
BadLine(e) ==    \* uniform (ratio 1) or geometric spacing between the ends, n cells
  LET n == e.n  g == e.out
      w(i) == At(g, i + 1) \ominus At(g, i)
  IN Clause("line-points", HasShape(g, <<n + 1>>))
     \cup (IF ~HasShape(g, <<n + 1>>) THEN {} ELSE
       Clause("line-ends", WithinTol(At(g, 0), e.a, e.a, Tol) /\ WithinTol(At(g, n), e.b, e.b, Tol))
       \cup Clause("line-spacing", \A i \in 0..(n - 2) : WithinTol(w(i + 1), e.ratio \otimes w(i), w(i + 1), Tol)))

BadDataLine(e) ==   \* a grid which covers the data, increasing; its interior points inside
  LET g == e.out  n == Size(g) IN
  Clause("grid-size", n = e.n /\ HasShape(g, <<e.n>>))
  \cup Clause("grid-covers", REq(At(g, 0), e.lo) /\ REq(At(g, n - 1), e.hi))
  \cup Clause("grid-increasing", \A i \in 0..(n - 2) : RLeq(At(g, i), At(g, i + 1)))
  \cup (IF ~Has(e, "uniform") THEN {} ELSE Clause("grid-uniform", \A i \in 0..(n - 3) : WithinTol(At(g, i + 2) \ominus At(g, i + 1), At(g, i + 1) \ominus At(g, i), e.hi, Tol)))

\* every cluster centre of a one dimensional mesh is the mean of the data nearest to it
BadCentroid(e) ==
  LET g == e.out  k == Size(g) - 2
      span == MaxAbs(e.data)
      Nearest(x, i) == \A j \in 1..k : RLeq(RAbs(x \ominus At(g, i)), RAbs(x \ominus At(g, j)) \oplus (span \otimes "1/1000000000"))
      cell(i) == SelectSeq(e.data, LAMBDA x : Nearest(x, i))
  IN Clause("centres-are-means", \A i \in 1..k : LET c == cell(i) IN Len(c) > 0 /\ WithinRel(RSum(c) \oslash Len(c), At(g, i), span, e.tol))

BadIntersect(e) ==
  LET on(p, a, b) == Cross(At(p, 0) \ominus At(a, 0), At(p, 1) \ominus At(a, 1), At(b, 0) \ominus At(a, 0), At(b, 1) \ominus At(a, 1))
      par == REq(Cross(At(e.a2, 0) \ominus At(e.a1, 0), At(e.a2, 1) \ominus At(e.a1, 1), At(e.b2, 0) \ominus At(e.b1, 0), At(e.b2, 1) \ominus At(e.b1, 1)), "0")
  IN IF par THEN Clause("parallel-lines", e.out = <<"inf", "inf">>)
     ELSE Clause("intersection", HasShape(e.out, <<2>>) /\ WithinTol(on(e.out, e.a1, e.a2), 0, MaxAbs(e.out), Tol) /\ WithinTol(on(e.out, e.b1, e.b2), 0, MaxAbs(e.out), Tol))

\* a triangulation of the convex polygon of the boundary: positive cells whose areas add up to its area, over all of the data;
\* behind the boundary come the centres of the clusters
Dist2(a, b) == ((At(a, 0) \ominus At(b, 0)) \otimes (At(a, 0) \ominus At(b, 0))) \oplus ((At(a, 1) \ominus At(b, 1)) \otimes (At(a, 1) \ominus At(b, 1)))
Mean2(s) == [c \in 1..2 |-> RSum([i \in 1..Len(s) |-> At(s[i], c - 1)]) \oslash Len(s)]
BadMesh(e) ==
  LET W == e.verts  T == e.cells  nv == Size(W)  nb == e.nb
      shape == HasShape(W, <<nv, 2>>) /\ nb >= 3 /\ nv = nb + e.bins
      nxt(i) == (i + 1) % nb
      side(i, p) == Cross(At2(W, nxt(i), 0) \ominus At2(W, i, 0), At2(W, nxt(i), 1) \ominus At2(W, i, 1), At(p, 0) \ominus At2(W, i, 0), At(p, 1) \ominus At2(W, i, 1))
      hull == RAbs(RSum([i \in 1..nb |-> Cross(At2(W, i - 1, 0), At2(W, i - 1, 1), At2(W, nxt(i - 1), 0), At2(W, nxt(i - 1), 1))]))
      total == RSum([i \in 1..Size(T) |-> Area2(W, T[i])])
      isData(i) == \E p \in 1..Size(e.data) : Close(At(W, i), e.data[p], "0")
      Nearest(p, i) == \A j \in nb..(nv - 1) : RLeq(Dist2(p, At(W, i)), Dist2(p, At(W, j)) \oplus "1/1000000000")
      cluster(i) == SelectSeq(e.data, LAMBDA p : Nearest(p, i))
  IN Clause("mesh-vertices", shape)
     \cup (IF ~shape THEN {} ELSE
       Clause("mesh-boundary", CASE e.kind = "given" -> nb = Size(e.boundary) /\ \A i \in Range0(nb) : Close(At(W, i), At(e.boundary, i), "0")
                                 [] e.kind = "hull" -> \A i \in Range0(nb) : isData(i)
                                 [] e.kind = "simplified" -> nb = 4 /\ \A i \in Range0(nb) : isData(i) \/ Close(At(W, i), e.corner, "1/1000000")
                                 [] OTHER -> TRUE)
       \cup Clause("mesh-centres", \A i \in nb..(nv - 1) : LET c == cluster(i) IN Len(c) > 0 /\ Close(At(W, i), Mean2(c), "1/100000"))
       \cup Clause("mesh-boundary-around-data", \A i \in Range0(nb), p \in 1..Size(e.data) : RLeq("-1/1000000", side(i, e.data[p])))
       \cup Clause("mesh-indices", \A i \in 1..Size(T) : Size(T[i]) = 3 /\ \A k \in 1..3 : T[i][k] \in Range0(nv))
       \cup Clause("mesh-covers", WithinTol(total, hull, hull, "1/1000000")))

\* the edge from vertex e.at to the next one is short: both its ends are replaced by the point where its neighbours meet
BadSimplify(e) ==
  LET n == Size(e.verts)  nx == (e.at + 1) % n
  IN IF ~e.short THEN Clause("hull-kept", ~e.changed /\ Close(e.out, e.verts, "0"))
     ELSE Clause("hull-simplified", /\ e.changed /\ HasShape(e.out, <<n - 1, 2>>)
            /\ (\E i \in Range0(n - 1) : Close(At(e.out, i), e.corner, "1/1000000"))
            /\ \A j \in Range0(n) \ {e.at, nx} : \E k \in Range0(n - 1) : Close(At(e.out, k), At(e.verts, j), "0"))

Bad(e) ==
  CASE e.ev = "fem" -> BadFem(e)
    [] e.ev = "find" -> BadFind(e)
    [] e.ev = "force" -> BadForce(e)
    [] e.ev = "line" -> BadLine(e)
    [] e.ev = "dataline" -> BadDataLine(e)
    [] e.ev = "centroid" -> BadCentroid(e)
    [] e.ev = "intersect" -> BadIntersect(e)
    [] e.ev = "simplify" -> BadSimplify(e)
    [] e.ev = "mesh" -> BadMesh(e)
    [] e.ev = "same" -> Clause(e.what, Close(e.a, e.b, e.tol))
    [] e.ev = "refused" -> Clause("refused:" \o e.what, e.outcome = "exc")
    [] OTHER -> {"unexpected-failure"}
TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext == l <= Len(Events) /\ Report(Bad(Events[l])) /\ l' = l + 1 /\ UNCHANGED tid
=============================================================================
