----------------------------- MODULE Integrator -----------------------------
(***************************************************************************)
(* Integration of the generalised Langevin equation                        *)
(*    dx/dt = v                                                            *)
(*    dv/dt = F(x) c + xi(t) - int_0^t E(t-s) K(s) ds                      *)
(* State: the trajectory so far, from which the next point is determined   *)
(* by one Runge-Kutta step of the fourth order, the memory term of the     *)
(* past being interpolated between its values at both ends of the step.    *)
(***************************************************************************)
EXTENDS Basis
RBits == 120
Rd(v) == MRound(<<v>>, RBits)[1]

Ax(a, u, w) == Eager([c \in 1..Len(u) |-> (a \otimes u[c]) \oplus w[c]])     \* a u + w
Vals(b, x) == LET K == NFn(b)  d == Len(x)
              IN Eager([p \in 1..(K * d) |-> Fn(b, (p - 1) \div d, 0, x[((p - 1) % d) + 1], (p - 1) % d)])
\* the kernel functions at (x, v): v itself, or the time derivative of the basis functions; then projected
EVec(m, x, v) ==
  LET b == m.b  d == Len(x)  f0 == DFirst(b)
      raw == IF m.kind = "const" THEN v
             ELSE Eager([p \in 1..(NDFn(b) * d) |-> LET c == (p - 1) % d IN Fn(b, ((p - 1) \div d) + f0, 1, x[c + 1], c) \otimes v[c + 1]])
  IN IF Absent(m.P) THEN raw ELSE Eager([i \in 1..Len(m.P) |-> RDot(m.P[i], raw)])
VecMat(u, Q) == MMul(<<u>>, Q)[1]

\* memory of the past at the time of point n (n points 0..n-1 before it), without the present point; trapezoidal, oldest point halved
PastMem(m, Es, n) ==
  LET L == Len(m.K)  loc == MinI(n, L - 1)
      w == [j \in 1..loc |-> IF j = loc THEN m.dt \oslash 2 ELSE R(m.dt)]
  IN IF n = 0 THEN [c \in 1..Len(m.K[1][1]) |-> "0"]
     ELSE WConv(w, [j \in 1..loc |-> <<Es[n - j + 1]>>], [j \in 1..loc |-> m.K[j + 1]])[1]
\* acceleration at (x, v) inside the step: past memory and present point at both ends weighted by alpha
Acc(m, x, v, xi, alpha, mem0, mem1, E0) ==
  LET h == m.dt \oslash 2
      s0 == Ax(h, VecMat(E0, m.K[1]), mem0)
      s1 == Ax(h, VecMat(EVec(m, x, v), m.K[1]), mem1)
      f == VecMat(Vals(m.b, x), m.coeff)
  IN Rd([c \in 1..Len(x) |-> ((f[c] \oplus xi[c]) \ominus (alpha \otimes s0[c])) \ominus (RSub(1, alpha) \otimes s1[c])])
\* from point n-1 to point n; Es are the kernel functions at points 0..n-1
Step(m, Es, n, x, v, xi) ==
  LET dt == m.dt  h == dt \oslash 2
      mem0 == Rd(PastMem(m, Es, n - 1))
      mem1 == Rd(PastMem(m, Es, n))
      E0 == Es[n]
      k1x == v                 k1v == Acc(m, x, v, xi, 1, mem0, mem1, E0)
      k2x == Ax(h, k1v, v)     k2v == Acc(m, Rd(Ax(h, k1x, x)), Rd(k2x), xi, "1/2", mem0, mem1, E0)
      k3x == Ax(h, k2v, v)     k3v == Acc(m, Rd(Ax(h, k2x, x)), Rd(k3x), xi, "1/2", mem0, mem1, E0)
      k4x == Ax(dt, k3v, v)    k4v == Acc(m, Rd(Ax(dt, k3x, x)), Rd(k4x), xi, 0, mem0, mem1, E0)
      comb(a, b, c, d, s) == Eager([i \in 1..Len(s) |-> s[i] \oplus ((dt \oslash 6) \otimes (a[i] \oplus (2 \otimes b[i]) \oplus (2 \otimes c[i]) \oplus d[i]))])
  IN [x |-> Rd(comb(k1x, k2x, k3x, k4x, x)), v |-> Rd(comb(k1v, k2v, k3v, k4v, v))]
=============================================================================
