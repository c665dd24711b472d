----------------------------- MODULE TraceForce -----------------------------
(* Static averages and the mean force: Gram matrices, normal equations.    *)
EXTENDS Models, TraceBase
Tol == "1/100000000"
Tol2 == "1/10000000000000000"    \* of squares

CloseMat(got, n, m, F(_, _), scale) ==
  /\ HasShape(got, <<n, m>>)
  /\ \A i \in Range0(n), j \in Range0(m) : WithinRel(At2(got, i, j), F(i, j), scale, Tol)

BadForce(e) ==
  LET ts == e.trajs
      Fs == [i \in 1..Len(ts) |-> AllF(e.model, ts[i])]
      nf == NF(e.model, ts[1])
      do == DimObs(ts[1])
      Col(i) == [k \in 1..Len(ts) |-> Fs[k][i + 1]]
      Ob(c) == [k \in 1..Len(ts) |-> Obs(ts[k], c)]
      G == [i \in 1..nf |-> [j \in 1..nf |-> PoolDot(Col(i - 1), Col(j - 1))]]
      sc == MaxAbs(G)
      mc == IF Absent(e.coeff) THEN 0 ELSE MaxAbs(e.coeff)
  IN Clause("gram", CloseMat(e.gram, nf, nf, LAMBDA i, j : G[i + 1][j + 1], sc))
     \* residual of the normal equations: the noise-free remainder is uncorrelated with every function of the expansion
     \cup Clause("normal-equations",
        IF Absent(e.coeff) THEN TRUE
        ELSE /\ HasShape(e.coeff, <<nf, do>>)
             /\ \A i \in Range0(nf), c \in Range0(do) :
                  LET rhs == PoolDot(Col(i), Ob(c)) IN
                  WithinRel(RDot(G[i + 1], [j \in 1..nf |-> At2(e.coeff, j - 1, c)]), rhs, RAbs(rhs) \oplus (sc \otimes mc), Tol))
     \* whatever the magnitude of each function: relative to the norms of the function and of what is projected
     \cup Clause("normal-equations-each-function",
        IF Absent(e.coeff) \/ ~HasShape(e.coeff, <<nf, do>>) THEN TRUE
        ELSE \A c \in Range0(do) :
             LET cc == [j \in 1..nf |-> At2(e.coeff, j - 1, c)]
                 n2 == RMul(nf, RSum([j \in 1..nf |-> G[j][j] \otimes cc[j] \otimes cc[j]])) \oplus PoolDot(Ob(c), Ob(c))
             IN \A i \in Range0(nf) :
                  LET res == RDot(G[i + 1], cc) \ominus PoolDot(Col(i), Ob(c)) IN
                  RLeq(res \otimes res, RMul(Tol2, G[i + 1][i + 1] \otimes n2)))

BadGramKernel(e) ==    \* average of the products of the kernel functions, summed over components (and projected)
  LET ts == e.trajs  nk == NK(e.model, ts[1])  d == DimX(ts[1])
      Col(i, c) == [k \in 1..Len(ts) |-> KK(e.model, ts[k], i, c)]
      G0 == [i \in 1..nk |-> [j \in 1..nk |-> RSum([c \in 1..d |-> PoolDot(Col(i - 1, c - 1), Col(j - 1, c - 1))])]]
      G == IF Absent(e.P) THEN G0 ELSE MatMul(e.P, MatMul(G0, Transp(e.P)))
  IN Clause("gram-kernel", CloseMat(e.gram, Len(G), Len(G), LAMBDA i, j : G[i + 1][j + 1], MaxAbs(G)))

BadMean(e) ==
  LET ts == e.trajs
      F(i) == [k \in 1..Len(ts) |-> FF(e.model, ts[k], i)]
      nf == NF(e.model, ts[1])
      mx == RMaxOf([i \in 1..nf |-> MaxAbs(F(i - 1))])
  IN Clause("basis-mean", HasShape(e.mean, <<nf>>) /\ \A i \in Range0(nf) : WithinRel(At(e.mean, i), PoolMean(F(i)), mx, Tol))

BadMass(e) ==    \* effective mass: inverse of <v v^T>
  LET ts == e.trajs  d == DimX(ts[1])
      V2 == [i \in 1..d |-> [j \in 1..d |-> PoolDot([k \in 1..Len(ts) |-> V(ts[k], i - 1)], [k \in 1..Len(ts) |-> V(ts[k], j - 1)])]]
  IN Clause("effective-mass", /\ HasShape(e.mass, <<d, d>>)
        /\ \A i, j \in 1..d : WithinTol(MatEntry(e.mass, V2, i, j), IF i = j THEN 1 ELSE 0, RDotAbs(e.mass[i], [k \in 1..d |-> V2[k][j]]), Tol))

Bad(e) ==
  CASE e.ev = "force" -> BadForce(e)
    [] e.ev = "mean" -> BadMean(e)
    [] e.ev = "mass" -> BadMass(e)
    [] e.ev = "gramkernel" -> BadGramKernel(e)
    [] e.ev = "zero" -> Clause("zero-force", HasShape(e.coeff, <<e.nf, e.dobs>>) /\ MaxAbs(e.coeff) = "0")
    [] OTHER -> {"unexpected-failure"}
TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext == l <= Len(Events) /\ Report(Bad(Events[l])) /\ l' = l + 1 /\ UNCHANGED tid
=============================================================================
