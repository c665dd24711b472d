-------------------------- MODULE TraceIntegrator --------------------------
(* Recorded runs of the integrators and noise generators.                  *)
EXTENDS Integrator, Noise, TraceBase
Tol == "1/1000000000000"

\* e.n0 points are given (x0, v0), the others follow step by step
BadRun(e) ==
  LET n == e.n  d == e.dim  m == e.m
      shape == HasShape(e.ox, <<n, d>>) /\ HasShape(e.ov, <<n, d>>)
      Es == Eager([k \in 1..n |-> Rd(EVec(m, e.ox[k], e.ov[k]))])
      n0 == MaxI(e.n0, 1)
      given(k) == IF e.n0 = 0 THEN /\ Close(e.ox[k], [c \in 1..d |-> "0"], "0") /\ Close(e.ov[k], [c \in 1..d |-> "0"], "0")
                  ELSE /\ Close(e.ox[k], e.x0[k], "0") /\ Close(e.ov[k], e.v0[k], "0")
  IN Clause("trajectory-shape", shape)
     \cup Clause("trajectory-times", HasShape(e.otime, <<n>>) /\ \A k \in 1..n : WithinTol(e.otime[k], (n0 + k - 2) \otimes m.dt, n \otimes m.dt, "1/1000000000"))
     \cup Clause("trajectory-timestep", REq(e.odt, m.dt))
     \cup (IF ~shape THEN {} ELSE
       Clause("starts-from-given", \A k \in 1..n0 : given(k))
       \cup Clause("step", \A k \in (n0 + 1)..n :
              LET s == Step(m, Es, k - 1, e.ox[k - 1], e.ov[k - 1], e.noise[k])
                  sc == 1 \oplus MaxAbs(s.x) \oplus MaxAbs(s.v)
              IN Close(e.ox[k], s.x, Tol \otimes sc) /\ Close(e.ov[k], s.v, Tol \otimes sc)))

\* initial conditions: consecutive points of one of the trajectories, timed from zero
BadStart(e) ==
  LET n == e.nmem + 1
      from(t) == \E k \in 0..(Len(t.x) - n) : \A i \in 1..n : e.ox[i] = t.x[k + i] /\ e.ov[i] = t.v[k + i]
  IN Clause("start-is-a-piece", HasShape(e.ox, <<n, e.dim>>) /\ HasShape(e.ov, <<n, e.dim>>) /\ \E t \in {e.trajs[i] : i \in 1..Len(e.trajs)} : from(t))
     \cup Clause("start-times", HasShape(e.otime, <<n>>) /\ \A k \in 1..n : WithinTol(e.otime[k], (k - 1) \otimes e.dt, n \otimes e.dt, "1/1000000000"))
     \cup Clause("data-unchanged", e.unchanged)

\* the places drawn are those which have the memory asked for before them, all of them (400 draws)
BadStarts(e) ==
  LET can == UNION {{<<k, i>> : i \in (e.nmem + 1)..e.lens[k]} : k \in 1..Len(e.lens)}
      got == {e.seen[i] : i \in 1..Len(e.seen)}
  IN Clause("start-has-its-memory", got \subseteq can) \cup Clause("every-start-is-drawn", can \subseteq got)

\* noise: e.resp[i] the response of sample i (all components) to each number of the white noise
BadColoured(e) ==
  LET n == e.n  d == e.dim
      \* correlation function of each component of the noise: the diagonal of the kernel, combined with the given coefficients
      kernel == Eager([i \in 1..Len(e.K) |-> [a \in 1..d |-> IF Absent(e.coeffs) THEN e.K[i][a][a] ELSE RSum([k \in 1..Len(e.coeffs) |-> e.coeffs[k][a] \otimes e.K[i][k][a]])]])
      want(i, j, a, b) == IF a # b THEN "0" ELSE LET g == IF i > j THEN e.idx[i] - e.idx[j] ELSE e.idx[j] - e.idx[i] IN IF g >= Len(kernel) THEN "0" ELSE kernel[g + 1][a]
      sc == MaxAbs(kernel)
  IN Clause("noise-shape", Size(e.resp) = n /\ \A i \in 1..n : Size(e.resp[i]) = d)
     \cup Clause("noise-linear", e.linear)
     \cup Clause("noise-covariance", \A i, j \in 1..n, a, b \in 1..d : WithinTol(RDot(e.resp[i][a], e.resp[j][b]), want(i, j, a, b), sc, e.tol))

BadKL(e) ==
  LET n == e.n
  IN Clause("noise-shape", Size(e.resp) = n)
     \cup Clause("noise-covariance", \A i, j \in 1..n : WithinTol(Cov(e.resp, i, j), e.dt \otimes e.cov[i][j], MaxAbs(e.cov) \otimes e.dt, "1/10000000"))

\* covariance matrix of a stationary noise
BadStat(e) ==     \* the backward kernel ends with lag -1
  LET n == Len(e.kernel)
  IN Clause("stationary-covariance", HasShape(e.out, <<n, n>>) /\
       \A i, j \in 1..n : REq(e.out[i][j], Stationary(e.kernel, e.back, i, j)))

Bad(e) ==
  CASE e.ev = "run" -> BadRun(e)
    [] e.ev = "start" -> BadStart(e)
    [] e.ev = "starts" -> BadStarts(e)
    [] e.ev = "coloured" -> BadColoured(e)
    [] e.ev = "kl" -> BadKL(e)
    [] e.ev = "stat" -> BadStat(e)
    [] e.ev = "refused" -> Clause("refused:" \o e.what, e.outcome = "exc")
    [] e.ev = "same" -> Clause(e.what, Close(e.a, e.b, e.tol))
    [] OTHER -> {"unexpected-failure"}
TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext == l <= Len(Events) /\ Report(Bad(Events[l])) /\ l' = l + 1 /\ UNCHANGED tid
=============================================================================
