----------------------------- MODULE TraceCorrs -----------------------------
(* The correlation functions of an estimation: which series are correlated,*)
(* with which observable, over which trajectories, projected on what.      *)
EXTENDS Models, TraceBase
Tol == "1/100000000"

BadCorrs(e) ==
  LET ts == e.trajs  m == e.model  nt == Len(ts)
      E0 == [k \in 1..nt |-> AllE(m, ts[k])]
      D0 == [k \in 1..nt |-> AllDE(m, ts[k])]
      O0 == [k \in 1..nt |-> Ortho(ts[k], AllF(m, ts[k]), e.coeff)]
      n0 == NE(m, ts[1])
      proj == ~Absent(e.P)
      \* projected series: correlations are bilinear, so projecting the series projects the correlations
      Pr(S) == IF proj THEN [i \in 1..Len(e.P) |-> [t \in 1..Len(S[1]) |-> RDot(e.P[i], [j \in 1..n0 |-> S[j][t]])]] ELSE S
      Es == [k \in 1..nt |-> Pr(E0[k])]
      Ds == [k \in 1..nt |-> Pr(D0[k])]
      ne == Len(Es[1])
      do == DimObs(ts[1])
      Sel(S, i) == [k \in 1..nt |-> S[k][i]]
      sE == MaxAbs(Es) sD == MaxAbs(Ds) sO == MaxAbs(O0)
      L == e.trunc
      Match(got, n, m2, Len_, S1, S2, sc) ==
        /\ HasShape(got, <<n, m2, Len_>>)
        /\ \A i \in 1..n, j \in 1..m2, k \in Range0(Len_) :
             WithinTol(At3(got, i - 1, j - 1, k), PoolCorr(Sel(S1, i), Sel(S2, j), k), sc, Tol)
  IN Clause("basis-basis-correlation", Match(e.bkbk, ne, ne, L, Es, Es, sE \otimes sE))
     \cup Clause("basis-observable-correlation", Match(e.bkdx, ne, do, L, Es, O0, sE \otimes sO))
     \cup (IF e.second
           THEN Clause("derivative-basis-correlation", Match(e.dotbkbk, ne, ne, L, Ds, Es, sD \otimes sE))
                \cup Clause("derivative-observable-correlation", Match(e.dotbkdx, ne, do, L, Ds, O0, sD \otimes sO))
           ELSE Clause("derivative-observable-at-zero", Match(e.dotbkdx, ne, do, 1, Ds, O0, sD \otimes sO))
                \cup Clause("no-second-order", Absent(e.dotbkbk)))
     \cup Clause("data-unchanged", e.unchanged)

(* Projection on the range: P has orthonormal rows which diagonalise the   *)
(* equal-time correlation; the kept directions are exactly those above the *)
(* tolerance; nothing of the correlations is lost.                         *)
BadProj(e) ==
  LET ts == e.trajs  m == e.model  nt == Len(ts)
      E0 == [k \in 1..nt |-> AllE(m, ts[k])]
      n0 == NE(m, ts[1])
      G == [i \in 1..n0 |-> [j \in 1..n0 |-> PoolDot([k \in 1..nt |-> E0[k][i]], [k \in 1..nt |-> E0[k][j]])]]
      P == e.P  rk == Size(P)
      PGP == MatMul(P, MatMul(G, Transp(P)))
      sc == MaxAbs(G)
      tr(M) == RSum([i \in 1..Len(M) |-> M[i][i]])
      lost == tr(G) \ominus tr(PGP)
      tol == IF Absent(e.tol) /\ e.tol = "absent" THEN sc \otimes "1/1000000000000000" ELSE e.tol
  IN Clause("projector-shape", rk > 0 /\ rk <= n0 /\ HasShape(P, <<rk, n0>>))
     \cup (IF ~HasShape(P, <<rk, n0>>) THEN {} ELSE
       Clause("orthonormal", \A i, j \in 1..rk : WithinTol(RDot(P[i], P[j]), IF i = j THEN 1 ELSE 0, "0", Tol))
       \cup Clause("expected-rank", rk = e.rank \/ e.rank < 0)
       \cup Clause("keeps-the-range", RLeq(lost, (n0 - rk) \otimes tol \oplus (Tol \otimes sc)))
       \cup Clause("drops-the-null-space", rk = n0 \/ \A i \in 1..rk : RLt(tol, PGP[i][i]) )
       \cup Clause("diagonal", rk = n0 \/ \A i, j \in 1..rk : i = j \/ WithinTol(PGP[i][j], 0, sc, Tol))
       \cup Clause("identity-when-full", rk < n0 \/ \A i, j \in 1..rk : WithinTol(P[i][j], IF i = j THEN 1 ELSE 0, "0", Tol)))

Bad(e) ==
  CASE e.ev = "corrs" -> BadCorrs(e)
    [] e.ev = "proj" -> BadProj(e)
    [] e.ev = "same" -> Clause(e.what, \A i \in Range0(Size(e.a)) : Close(At(e.a, i), At(e.b, i), e.tol))
    [] OTHER -> {"unexpected-failure"}
TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext == l <= Len(Events) /\ Report(Bad(Events[l])) /\ l' = l + 1 /\ UNCHANGED tid
=============================================================================
