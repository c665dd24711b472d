--------------------------- MODULE TraceVolterra ---------------------------
EXTENDS Volterra, TraceBase
Tol == "1/10000000"

CloseM(P, Q, scale) == Close(P, Q, Tol \otimes (scale \oplus "1/1000000000"))
Sc(P) == MaxAbs(P)
Transpose(P) == [j \in 1..Len(P[1]) |-> [i \in 1..Len(P) |-> P[i][j]]]

First == {"rect", "rectangular"}
BadKernel(e) ==
  LET T == Len(e.B)  K == e.out  dt == e.dt  n == KernelLen(e.method, T)
      nb == Size(At(e.B, 0))  do == Size(At2(e.D, 0, 0))
      k0 == IF Absent(e.k0) THEN K0(e.B, e.Dd) ELSE e.k0
      shape == HasShape(K, <<n, nb, do>>)
  IN Clause("kernel-shape", shape)
     \cup Clause("kernel-time-grid", HasShape(e.otime, <<n>>) /\ \A i \in Range0(n) :
            WithinTol(At(e.otime, i), (KernelStride(e.method) * i) \otimes dt, dt \otimes T, "1/1000000000"))
     \cup (IF ~shape THEN {} ELSE
       CASE e.method \in First ->
              Clause("first-kind-rectangle", \A i \in 0..(T - 2) :
                CloseM(RectLhs(e.B, K, dt, i), MLin("-1", M(e.D, i + 1), 0, M(e.D, i + 1)), Sc(RectAbs(e.B, K, dt, i)) \oplus Sc(e.D)))
         [] e.method = "midpoint" ->
              Clause("first-kind-midpoint", \A i \in 0..(n - 1) :
                CloseM(MidLhs(e.B, K, dt, i), MLin("-1", M(e.D, 2 * i + 1), 0, M(e.D, 0)), Sc(MidAbs(e.B, K, dt, i)) \oplus Sc(e.D)))
         [] e.method = "midpoint_w_richardson" ->
              Clause("richardson", \A i \in 0..(n - 1) : LET r == Richardson(e.B, e.D, dt, i) IN CloseM(M(K, i), r, (1 \oplus Sc(K)) \otimes 10))
         [] e.method = "trapz" ->
              Clause("first-kind-trapezoid", LET U == TrapSol(e.B, e.D, k0, dt, T) IN
                \A i \in 0..(n - 1) : CloseM(M(K, i), Smooth(U, i), (1 \oplus Sc(U)) \otimes 10))
         [] e.method = "second_kind_rect" ->
              Clause("second-kind-rectangle", \A i \in 1..(n - 1) :
                CloseM(SkLhs(M(e.B, 0), K, i), SkRhs(Sk1W(i, dt), e.Bd, e.Dd, K, i), Sc(SkAbs(Sk1W(i, dt), e.Bd, K, i)) \oplus Sc(e.Dd) \oplus (Sc(M(e.B, 0)) \otimes Sc(M(K, i)))))
         [] e.method = "second_kind_trapz" ->
              Clause("second-kind-trapezoid", \A i \in 1..(n - 1) :
                LET w == [j \in 1..(i + 1) |-> dt \otimes TrapW(i)[j]] IN
                CloseM(SkLhs(M(e.B, 0), K, i), SkRhs(w, e.Bd, e.Dd, K, i), Sc(SkAbs(w, e.Bd, K, i)) \oplus Sc(e.Dd) \oplus (Sc(M(e.B, 0)) \otimes Sc(M(K, i))))))
     \cup (IF shape /\ e.method \in {"trapz", "second_kind_rect", "second_kind_trapz"}
           THEN Clause("initial-value", CloseM(M(K, 0), k0, 1 \oplus Sc(k0))) ELSE {})
     \cup Clause("correlations-unchanged", e.unchanged)

\* check_volterra_inversion: the trapezoidal integral of the kernel found, with the sign of the equation
BadCheck(e) ==
  LET T == Len(e.B)  nk == Len(e.K)
      Integ(n) == IF n < nk THEN (IF n = 0 THEN Zero(M(e.D, 0)) ELSE MLin("-1", TrapLhs(e.B, e.K, e.dt, n), 0, M(e.D, 0))) ELSE Zero(M(e.D, 0))
      want(n) == IF e.diff THEN MLin(1, Integ(n), "-1", M(e.D, n)) ELSE Integ(n)
      Abs1(P) == [i \in 1..Len(P) |-> [j \in 1..Len(P[1]) |-> RAbs(P[i][j])]]
      W(n) == IF e.diff THEN Abs1(want(n)) ELSE want(n)
  IN Clause("inversion-check", HasShape(e.out, <<T, Size(At(e.D, 0)), Size(At2(e.D, 0, 0))>>)
       /\ \A n \in Range0(T) : CloseM(M(e.out, n), W(n), 1 \oplus (Sc(e.B) \otimes Sc(e.K) \otimes e.dt \otimes nk)))


\* Convergence: kernels computed from the exact correlations of a known kernel, on grids of step dt, dt/2, ...
\* e.runs: [dt, B, D, Bd, Dd, out, otime]
BadConv(e) ==
  LET n == Len(e.runs)
      exact(t) == PolyM(e.Kc, t)
      skip == IF e.method \in First THEN 1 ELSE 0      \* the last point of the rectangular method is not determined
      first == IF e.method \in {"midpoint", "midpoint_w_richardson"} THEN 1 ELSE 0   \* cell of the first value: cut at time zero, first order
      at(r, i) == MaxAbs(MLin(1, M(r.out, i), "-1", exact(At(r.otime, i))))
      dev(r) == LET m == Size(r.out) - skip - first IN RMaxOf([i \in 1..m |-> at(r, i - 1 + first)])
      errs == Eager([i \in 1..n |-> dev(e.runs[i])])
      given(r) == /\ \A i \in Range0(Len(r.B)) : LET t == i \otimes r.dt IN
                       /\ CloseM(M(r.B, i), PolyM(e.Bc, t), "1/1000")
                       /\ CloseM(M(r.D, i), MLin("-1", ConvAt(e.Bc, e.Kc, t), 0, PolyM(e.Kc, t)), "1/1000")
                       /\ CloseM(M(r.Bd, i), MLin(1, PolyM(DerC(e.Bc), t), 0, PolyM(DerC(e.Bc), t)), "1/1000")
                          \* B' K convolution and B(0) K: the second kind equation of the same kernel
                       /\ CloseM(M(r.Dd, i), MLin(1, MMul(M(e.Bc, 0), PolyM(e.Kc, t)), "-1", ConvAt(e.BdC, e.Kc, t)), "1/1000")
  IN Clause("convergence-initial:" \o e.method, first = 1 => \A i \in 1..(n - 1) : RLeq(at(e.runs[i + 1], 0), (at(e.runs[i], 0) \otimes "3/4") \oplus (e.runs[i].dt \otimes "1/40")))
     \cup Clause("convergence:" \o e.method, \A i \in 1..(n - 1) : RLeq(errs[i + 1], (errs[i] \otimes e.ratio) \oplus (RPow(e.runs[i].dt, e.order) \otimes "1/40")))
     \cup Clause("accuracy:" \o e.method, RLeq(errs[n], e.bound))
     \cup Clause("harness:exact-data", \A i \in 1..n : given(e.runs[i]))

\* ---- forward evolution ------------------------------------------------------------
BadIde(e) ==
  LET K == Eager([j \in 1..MinI(e.trunc, Len(e.K)) |-> e.K[j]])  n == e.T  dt == e.dt
      nb == Size(At2(K, 0, 0))  no == Size(e.G0)
      E == e.out
      rule == IF e.method = "rect" THEN "rect" ELSE "trapz"
      A == IdeMat(rule, K, dt)
      shape == HasShape(E, <<n, no, nb>>)
  IN Clause("evolution-shape", shape)
     \cup Clause("evolution-times", HasShape(e.otime, <<n>>) /\ \A i \in Range0(n) : WithinTol(At(e.otime, i), i \otimes dt, n \otimes dt, "1/1000000000"))
     \cup (IF ~shape THEN {} ELSE
       Clause("evolution-start", Close(M(E, 0), e.G0, "0"))
       \cup (IF e.method # "trapz_stab"
             THEN Clause("evolution-step", \A i \in 1..(n - 1) :
                    LET rhs == IdeRhs(rule, E, K, e.f, dt, i) IN CloseM(MMul(M(E, i), A), rhs, Sc(rhs) \oplus (Sc(M(E, i)) \otimes Sc(A))))
             ELSE Clause("stabilised-sum", \A i \in 1..(n - 1) : WithinTol(Total(M(E, i)), 1, 1, Tol))
                  \cup Clause("stabilised-sign", \A i \in 1..(n - 1) : \A a \in Range0(no), b \in Range0(nb) : RLeq("0", At3(E, i, a, b)))
                  \cup Clause("stabilised-step", \A i \in 1..(n - 1) :
                         \* the solution of the implicit step, cut and normalised
                         LET rhs == IdeRhs(rule, E, K, e.f, dt, i)
                             raw == Transpose(MSolve(Transpose(A), Transpose(rhs)))
                             pos == Pos(raw)
                         IN CloseM(MLin(Total(pos), M(E, i), 0, M(E, i)), pos, Sc(raw) \oplus 1))))

\* ---- flux ----------------------------------------------------------------------------
BadFlux(e) ==   \* corrs: time first; force: (out, comp, time), memory: (time, out, comp)
  LET K == Eager([j \in 1..MinI(e.trunc, Len(e.K)) |-> e.K[j]])  T == Len(e.Bk)
      no == Size(At(e.Bk, 0))  nc == Size(At2(K, 0, 0))
      memory(n) == LET m == MinI(n, Len(K) - 1) IN
        IF n = 0 THEN Zero(M(e.mem, 0)) ELSE
        MLin("-1", WConv([j \in 1..(m + 1) |-> FluxW(e.method, m, e.dt, j - 1)], BSeq(e.Bk, 0, m, LAMBDA j : n - j), KSeq(K, 0, m)), 0, M(e.mem, n))
      sc == (Sc(e.Bk) \otimes Sc(K) \otimes e.dt \otimes Len(K)) \oplus "1/1000"
  IN Clause("flux-force", HasShape(e.force, <<no, nc, Len(e.Bf)>>) /\ \A t \in Range0(Len(e.Bf)) :
            LET w == MMul(M(e.Bf, t), e.f) IN \A a \in Range0(no), c \in Range0(nc) : WithinTol(At3(e.force, a, c, t), At2(w, a, c), Sc(e.Bf) \otimes Sc(e.f), Tol))
     \cup Clause("flux-memory:" \o e.method, HasShape(e.mem, <<T, no, nc>>) /\ \A n \in Range0(T) : CloseM(M(e.mem, n), memory(n), sc))

\* ---- Laplace transform ------------------------------------------------------------------
BadLaplace(e) ==
  LET n == Len(e.K)  ns == e.ns
      h == At(e.ktime, 1) \ominus At(e.ktime, 0)
      w == SimpsonW(n, h)
      s(i) == IF ns = 1 THEN R(e.s0) ELSE e.s0 \oplus ((e.s1 \ominus e.s0) \otimes RDiv(i, ns - 1))
      id == Ident(Size(At2(e.K, 0, 0)))
      L(i) == WConv(Eager([j \in 1..n |-> RRound(w[j] \otimes Exp(RNeg(s(i) \otimes At(e.ktime, j - 1))), 100)]), e.K, [j \in 1..n |-> id])
      sc == (Sc(e.K) \otimes h \otimes n) \oplus "1/1000"
      shape == HasShape(e.out, <<ns, Size(At(e.K, 0)), Size(At2(e.K, 0, 0))>>)
  IN Clause("laplace-shape", shape)
     \cup Clause("laplace-frequencies", HasShape(e.os, <<ns>>) /\ \A i \in Range0(ns) : WithinTol(At(e.os, i), s(i), e.s1, "1/1000000000"))
     \cup (IF ~shape THEN {} ELSE Clause("laplace-transform", \A i \in Range0(ns) : CloseM(M(e.out, i), L(i), sc)))

Bad(e) ==
  CASE e.ev = "kernel" -> BadKernel(e)
    [] e.ev = "check" -> BadCheck(e)
    [] e.ev = "conv" -> BadConv(e)
    [] e.ev = "ide" -> BadIde(e)
    [] e.ev = "flux" -> BadFlux(e)
    [] e.ev = "laplace" -> BadLaplace(e)
    [] e.ev = "same" -> Clause(e.what, Close(e.a, e.b, e.tol))
    [] e.ev = "refused" -> Clause("refused:" \o e.what, e.outcome = "exc")
    [] OTHER -> {"unexpected-failure"}
TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext == l <= Len(Events) /\ Report(Bad(Events[l])) /\ l' = l + 1 /\ UNCHANGED tid
=============================================================================
