----------------------------- MODULE TraceBasis -----------------------------
(* Recorded evaluations of basis functions.                                *)
EXTENDS Basis, TraceBase
Tol == "1/1000000000"

BadEval(e) ==
  LET b == e.b  K == NFn(b)  D == NDFn(b)  f0 == DFirst(b)
      np == Size(e.x)  d == Size(At(e.x, 0))
      V(r) == Eager([p \in 1..np |-> [n \in 1..K |-> [c \in 1..d |-> Fn(b, n - 1, r, At2(e.x, p - 1, c - 1), c - 1)]]])
      v0 == V(0)
      m0 == MaxAbs(v0)
      ok(got, want) == WithinTol(got, want, m0, Tol)
  IN Clause("number-of-functions", e.nout = K * d)
     \cup Clause("values", HasShape(e.val, <<np, K * d>>) /\
          \A p \in 1..np, n \in 1..K, c \in 1..d : ok(At2(e.val, p - 1, (n - 1) * d + c - 1), v0[p][n][c]))
     \cup (IF Absent(e.grad) THEN {} ELSE LET v1 == V(1)  m1 == MaxAbs(v1) IN
          Clause("gradient", HasShape(e.grad, <<np, D * d, d>>) /\
            \A p \in 1..np, n \in 1..D, c \in 1..d, c2 \in 1..d :
              WithinTol(At3(e.grad, p - 1, (n - 1) * d + c - 1, c2 - 1), IF c = c2 THEN v1[p][n + f0][c] ELSE "0", m1, Tol)))
     \cup (IF Absent(e.hess) THEN {} ELSE LET v2 == V(2)  m2 == MaxAbs(v2) IN
          Clause("second-derivative", HasShape(e.hess, <<np, D * d, d, d>>) /\
            \A p \in 1..np, n \in 1..D, c \in 1..d, c2 \in 1..d, c3 \in 1..d :
              WithinTol(At4(e.hess, p - 1, (n - 1) * d + c - 1, c2 - 1, c3 - 1), IF c = c2 /\ c = c3 THEN v2[p][n + f0][c] ELSE "0", m2, Tol)))
     \cup (IF Absent(e.anti) THEN {} ELSE LET vi == V(-1)  mi == MaxAbs(vi) IN    \* up to a constant
          Clause("primitive", HasShape(e.anti, <<np, K * d>>) /\
            \A p \in 1..np, n \in 1..K, c \in 1..d :
              WithinTol(At2(e.anti, p - 1, (n - 1) * d + c - 1) \ominus At2(e.anti, 0, (n - 1) * d + c - 1),
                        vi[p][n][c] \ominus vi[1][n][c], mi, Tol)))
     \cup Clause("points-unchanged", e.unchanged)
     \cup (IF b.kind \in {"bspline", "indicator"} THEN
            Clause("non-negative", \A p \in 1..np, n \in 1..(K * d) : RLeq(RNeg(Tol), At2(e.val, p - 1, n - 1)))
            \cup Clause("sum-to-one", d > 1 \/ \A p \in 1..np : WithinTol(RSum(At(e.val, p - 1)), 1, 0, Tol))
           ELSE {})

\* ---- composite bases: recorded together with their parts -----------------------
BadCombine(e) ==   \* arrays point x function x ...: the parts one after the other
  LET n == Len(e.parts)
      Join(p) == LET RECURSIVE J(_) J(i) == IF i > n THEN <<>> ELSE At(e.parts[i], p - 1) \o J(i + 1) IN J(1)
  IN Clause("combined:" \o e.what, Size(e.out) = Size(e.parts[1]) /\ \A p \in 1..Size(e.out) : Close(e.out[p], Join(p), "1/1000000000000"))

BadTensor(e) ==
  LET np == Size(e.b1)  n1 == Size(At(e.b1, 0))  n2 == Size(At(e.b2, 0))
      F1(p, i, r) == IF r = 0 THEN At2(e.b1, p, i) ELSE IF r = 1 THEN At3(e.d1, p, i, 0) ELSE At4(e.h1, p, i, 0, 0)
      F2(p, i, r) == IF r = 0 THEN At2(e.b2, p, i) ELSE IF r = 1 THEN At3(e.d2, p, i, 0) ELSE At4(e.h2, p, i, 0, 0)
      Pr(p, i, j, r, s) == F1(p, i, r) \otimes F2(p, j, s)
      idx(i, j) == i * n2 + j
      ok(a, w, s) == WithinTol(a, w, s, Tol)
      P0 == Range0(np)  I0 == Range0(n1)  J0 == Range0(n2)
      sc == (MaxAbs(e.b1) \oplus MaxAbs(e.d1) \oplus MaxAbs(e.h1)) \otimes (MaxAbs(e.b2) \oplus MaxAbs(e.d2) \oplus MaxAbs(e.h2))
  IN Clause("number-of-functions", e.nout = n1 * n2)
     \cup Clause("tensor-values", HasShape(e.val, <<np, n1 * n2>>) /\ \A p \in P0, i \in I0, j \in J0 : ok(At2(e.val, p, idx(i, j)), Pr(p, i, j, 0, 0), sc))
     \cup Clause("tensor-gradient", HasShape(e.grad, <<np, n1 * n2, 2>>) /\ \A p \in P0, i \in I0, j \in J0 :
            /\ ok(At3(e.grad, p, idx(i, j), 0), Pr(p, i, j, 1, 0), sc)
            /\ ok(At3(e.grad, p, idx(i, j), 1), Pr(p, i, j, 0, 1), sc))
     \cup Clause("tensor-second-derivative", HasShape(e.hess, <<np, n1 * n2, 2, 2>>) /\ \A p \in P0, i \in I0, j \in J0 :
            /\ ok(At4(e.hess, p, idx(i, j), 0, 0), Pr(p, i, j, 2, 0), sc)
            /\ ok(At4(e.hess, p, idx(i, j), 1, 1), Pr(p, i, j, 0, 2), sc)
            /\ ok(At4(e.hess, p, idx(i, j), 0, 1), Pr(p, i, j, 1, 1), sc)
            /\ ok(At4(e.hess, p, idx(i, j), 1, 0), Pr(p, i, j, 1, 1), sc))
     \cup Clause("tensor-indices", \A i \in I0, j \in J0 : At2(e.comb, i, j) = ToString(idx(i, j)) /\ At(e.split, idx(i, j)) = <<ToString(i), ToString(j)>>)

Bad(e) ==
  CASE e.ev = "eval" -> BadEval(e)
    [] e.ev = "combine" -> BadCombine(e)
    [] e.ev = "tensor" -> BadTensor(e)
    [] e.ev = "count" -> Clause("number-of-functions", e.nout = e.want)
    [] e.ev = "same" -> Clause(e.what, Close(e.a, e.b, e.tol))
    [] e.ev = "refused" -> Clause("refused:" \o e.what, e.outcome = "exc")
    [] OTHER -> {"unexpected-failure"}
TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext == l <= Len(Events) /\ Report(Bad(Events[l])) /\ l' = l + 1 /\ UNCHANGED tid
=============================================================================
