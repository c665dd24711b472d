---------------------------- MODULE TraceMemory ----------------------------
(* Noise decomposition and projected noise correlations.                   *)
EXTENDS Memory, TraceBase
Tol == "1/100000000"

RowsClose(got, want, scale) ==
  /\ HasShape(got, <<Len(want), Len(want[1])>>)
  /\ Close(got, want, Tol \otimes scale)

Sub(t, f, a, b) == Part(t[f], a, b)
Slice(t, a, b) == [x |-> Sub(t, "x", a, b), v |-> Sub(t, "v", a, b), a |-> Sub(t, "a", a, b), obs |-> Sub(t, "obs", a, b),
                   bk |-> Sub(t, "bk", a, b), dbk |-> Sub(t, "dbk", a, b), ddbk |-> IF Absent(t.ddbk) THEN t.ddbk ELSE Sub(t, "ddbk", a, b)]

BadNoise(e) ==
  LET t == Slice(e.traj, e.start, e.stop)  n == e.stop - e.start
      K == Eager([j \in 1..MinI(e.trunc, Len(e.K)) |-> e.K[j]])
      Es == ERows(e.model, t, e.P)
      F == ForceRows(e.model, t, e.coeff)
      Mm == Mem(e.rule, Es, K, e.dt)
      rest == Eager(MLin(1, MLin(1, t.obs, "-1", F), "-1", Mm))
      sc == MaxAbs(t.obs) \oplus MaxAbs(F) \oplus MaxAbs(Mm)
  IN Clause("noise-time", HasShape(e.otime, <<n>>) /\ \A k \in Range0(n) : WithinTol(At(e.otime, k), At(e.time, e.start + k) \ominus At(e.time, 0), MaxAbs(e.time), "1/1000000000"))
     \cup Clause("observable-part", HasShape(e.obs, <<n, DimObs(t)>>) /\ Close(e.obs, t.obs, "0"))
     \cup Clause("force-part", RowsClose(e.force, F, sc))
     \cup Clause("memory-part", RowsClose(e.mem, Mm, sc))
     \cup Clause("noise-part", RowsClose(e.noise, rest, sc))
     \cup Clause("parts-sum-to-observable", Close(MLin(1, e.noise, 1, MLin(1, e.force, 1, e.mem)), t.obs, Tol \otimes sc))
     \cup Clause("data-unchanged", e.unchanged)

Xi(e, t) == Eager(MLin(1, t.obs, "-1", ForceRows(e.model, t, e.coeff)))
LeftOf(e, k, xi) == IF Absent(e.left) THEN xi ELSE e.left[k]
Corrs1(e, k) ==
  LET t == e.trajs[k]  xi == Xi(e, t)
  IN PropCorrs(e.rule, xi, LeftOf(e, k, xi), ERows(e.model, t, e.P), e.K, e.dt, 0)
BadPcorr(e) ==
  LET nt == Len(e.trajs)
      all == Eager([k \in 1..nt |-> Corrs1(e, k)])
      tot == TotalLen(e.trajs)
      n == Len(all[1])
      want == Eager([i \in 1..n |-> [a \in 1..Len(all[1][1]) |-> [b \in 1..Len(all[1][1][1]) |->
                 RSum([k \in 1..nt |-> all[k][i][a][b] \otimes NSteps(e.trajs[k])]) \oslash tot]]])
  IN Clause("projected-correlation:" \o e.what, HasShape(e.out, <<n, Len(want[1]), Len(want[1][1])>>) /\ Close(e.out, want, "1/10000000" \otimes (1 \oplus MaxAbs(want))))
     \cup Clause("projected-correlation-time", HasShape(e.otime, <<n>>) /\ \A i \in Range0(n) : WithinTol(At(e.otime, i), At(e.ktime, i), MaxAbs(e.ktime), "1/1000000000"))

Bad(e) ==
  CASE e.ev = "noise" -> BadNoise(e)
    [] e.ev = "pcorr" -> BadPcorr(e)
    [] e.ev = "refused" -> Clause("refused:" \o e.what, e.outcome = "exc")
    [] e.ev = "same" -> Clause(e.what, \A i \in Range0(Size(e.a)) : Close(At(e.a, i), At(e.b, i), e.tol))
    [] OTHER -> {"unexpected-failure"}
TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext == l <= Len(Events) /\ Report(Bad(Events[l])) /\ l' = l + 1 /\ UNCHANGED tid
=============================================================================
