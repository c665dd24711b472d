------------------------------ MODULE TraceFit ------------------------------
(* Recorded fits of kernels and evaluations of fits.                       *)
EXTENDS Fit, TraceBase
Tol == "1/1000000000"
Q == INSTANCE Volterra

\* evaluation of one fit
BadEval(e) ==
  LET n == Len(e.times) IN
  Clause("fit-evaluation", HasShape(e.out, <<n>>) /\ \A k \in 1..n : LET w == Form(e.type, e.p, e.times[k]) IN WithinTol(e.out[k], w, w, Tol))

\* evaluation of the fits of a kernel: parameters p[d][k] of component d, function k
BadKEval(e) ==
  LET n == Len(e.times)  dx == Len(e.p)  nb == Len(e.p[1]) IN
  Clause("kernel-fit-evaluation", HasShape(e.out, <<n, nb, dx>>) /\
    \A t \in 1..n, k \in 1..nb, d \in 1..dx :
      LET w == Form(e.type, e.p[d][k], e.times[t]) IN WithinTol(e.out[t][k][d], w, w, Tol))

\* a fit of arbitrary data is a stationary point of the sum of squares, a fit of data of the form itself reproduces them
Stationary(type, p, times, data) ==
  LET n == Len(times)
      r == Eager([i \in 1..n |-> Rd2(Form(type, p, times[i]) \ominus data[i])])
      g == Eager([i \in 1..n |-> LET D == Eager(DForm(type, p, times[i])) IN [a \in 1..NParams(type) |-> Rd2(D[a])]])
      col(a) == [i \in 1..n |-> g[i][a]]
  IN \A a \in 1..NParams(type) :
       LET d == RDot(r, col(a)) IN RLeq(d \otimes d, RMul("1/1000000", RDot(r, r) \otimes RDot(col(a), col(a))) \oplus RMul("1/1000000000000", RDot(data, data) \otimes RDot(col(a), col(a))))
BadFit(e) ==
  LET okp == HasShape(e.p, <<NParams(e.type)>>) IN
  Clause("fit-type", e.otype = e.type)
  \cup Clause("fit-parameters", okp)
  \cup (IF ~okp THEN {} ELSE
    Clause("fit-stationary", Stationary(e.type, e.p, e.times, e.data))
    \cup (IF ~e.exact THEN {} ELSE
      Clause("fit-reproduces", LET sc == MaxAbs(e.data) IN \A k \in 1..Len(e.times) : WithinTol(Form(e.type, e.p, e.times[k]), e.data[k], sc, "1/100000"))))

\* the fits of a kernel are the fits of its components
BadKFit(e) ==
  LET n == Len(e.times)  nb == Len(e.data[1])  dx == Len(e.data[1][1])  m == IF e.type = "prony" THEN 0 ELSE NParams(e.type)
      okp == Size(e.p) = dx /\ \A d \in 1..dx : Size(e.p[d]) = nb /\ (e.type = "prony" \/ \A k \in 1..nb : HasShape(e.p[d][k], <<m>>))
  IN Clause("fit-type", e.otype = e.type)
     \cup Clause("fit-parameters", okp)
     \cup (IF ~okp THEN {} ELSE Clause("kernel-fit-reproduces",
       \A d \in 1..dx, k \in 1..nb : LET y == [t \in 1..n |-> e.data[t][k][d]] sc == MaxAbs(y) IN
         \A t \in 1..n : WithinTol(Form(e.type, e.p[d][k], e.times[t]), y[t], sc, "1/100000")))

\* integral of the kernel over the second half against a + b/t
BadAsymptotic(e) ==
  LET n == Len(e.times)
      h == n \div 2
      cum[k \in 1..n] == IF k = 1 THEN "0" ELSE cum[k - 1] \oplus RMul("1/2", (e.times[k] \ominus e.times[k - 1]) \otimes (e.data[k] \oplus e.data[k - 1]))
      r == Eager([i \in 1..(n - h) |-> (e.out[1] \oplus (e.out[2] \oslash e.times[h + i])) \ominus cum[h + i]])
      inv == [i \in 1..(n - h) |-> RDiv(1, e.times[h + i])]
      sc == MaxAbs([i \in 1..n |-> cum[i]])
  IN Clause("asymptotic-fit", HasShape(e.out, <<2>>) /\ WithinTol(RSum(r), 0, sc, "1/1000000") /\ WithinTol(RDot(r, inv), 0, sc, "1/1000000"))

\* integral of each kernel component over its times
BadFriction(e) ==
  LET n == Len(e.K)  w == Q!SimpsonW(n, At(e.times, 1) \ominus At(e.times, 0))
  IN Clause("markovian-friction", HasShape(e.out, <<Len(e.K[1][1]), Len(e.K[1])>>) /\ \A d \in 1..Len(e.K[1][1]), k \in 1..Len(e.K[1]) :
        WithinTol(e.out[d][k], RDot(w, [i \in 1..n |-> e.K[i][k][d]]), MaxAbs(e.K) \otimes n, Tol))

\* any times: the integral of a kernel of the second degree, c[1] + c[2] t + c[3] t^2, is exact
BadFricQuad(e) ==
  LET n == Len(e.times)  a == e.times[1]  b == e.times[n]  nb == Len(e.c[1])  dx == Len(e.c[1][1])
      pw(x, k) == CASE k = 1 -> R(x) [] k = 2 -> x \otimes x [] OTHER -> x \otimes (x \otimes x)
      want(k, d) == RSum([i \in 1..3 |-> (e.c[i][k][d] \otimes (pw(b, i) \ominus pw(a, i))) \oslash i])
      sc == MaxAbs(e.c) \otimes (1 \oplus pw(b, 3))
  IN Clause("markovian-friction-any-times", HasShape(e.out, <<dx, nb>>) /\ \A d \in 1..dx, k \in 1..nb : WithinTol(e.out[d][k], want(k, d), sc, Tol))

\* ---- Prony series ---------------------------------------------------------
Square(M) == Size(M) > 0 /\ HasShape(M, <<Size(M), Size(M)>>)
\* evaluation at any times, and for small matrices the definition of the exponential
BadPEval(e) ==
  LET n == Len(e.times) IN
  Clause("prony-evaluation", HasShape(e.out, <<n>>) /\ Square(e.A) /\
     \A k \in 1..n : LET w == PronyAt(e.y0, e.A, e.times[k]) IN WithinTol(e.out[k], w, e.y0, "1/10000000"))
BadPKEval(e) ==
  LET n == Len(e.times)  dx == Len(e.p)  nb == Len(e.p[1]) IN
  Clause("prony-evaluation", HasShape(e.out, <<n, nb, dx>>) /\
    \A t \in 1..n, k \in 1..nb, d \in 1..dx :
      LET w == PronyAt(e.p[d][k].y0, e.p[d][k].A, e.times[t]) IN WithinTol(e.out[t][k][d], w, e.p[d][k].y0, "1/10000000"))

\* a sum of e.rank exponentials is fitted exactly, in and beyond the range of the data, by that many terms
\* (a negative real multiplier needs two)
BadPFit(e) ==
  LET sq == Square(e.A)  n == Len(e.data) IN
  Clause("prony-square", sq)
  \cup (IF ~sq THEN {} ELSE
    Clause("prony-terms", e.nterms < 0 \/ Size(e.A) = e.nterms)
    \cup (LET got == Eager(PronyPow(e.y0, e.A, e.dt, n)) sc == MaxAbs(e.data) IN
          Clause("prony-initial-value", WithinTol(e.y0, e.data[1], e.data[1], "1/1000000000000"))
          \cup Clause("prony-reproduces", ~e.exact \/ \A k \in 1..n : WithinTol(got[k], e.data[k], sc, e.tol))))

\* filtered fits: at most e.nkeep terms (twice as many when multipliers are negative), none of them diverging
BadPKeep(e) ==
  LET sq == Square(e.A) IN
  Clause("prony-square", sq)
  \cup (IF ~sq THEN {} ELSE
    Clause("prony-at-most", Size(e.A) <= 2 * e.nkeep)
    \cup (IF ~e.stable THEN {} ELSE
      LET E == Eager(MExp(MScale(e.dt, e.A)))
          P == Eager(Squarings(E, 10))     \* E^1024
      IN Clause("prony-no-divergence", RLeq(MaxAbs(P), "1000000"))))

\* the data as seen by the fit
BadInspect(e) ==
  LET m == 2 * ((Len(e.data) - 1) \div 2) + 1 IN
  Clause("prony-filtered-data", HasShape(e.out, <<m>>) /\ LET sc == MaxAbs(e.data) IN \A k \in 1..m : WithinTol(e.out[k], e.want[k], sc, e.tol))
\* where the wanted values are Fourier modes of a periodic series: the e.keep modes of largest amplitude
\* (a cosine of frequency f in a series of period P contributes singular values a P / 2 twice, or a P once for f = 0 and f = P/2)
FreqCount(e, i) == IF e.freqs[i] = 0 \/ 2 * e.freqs[i] = e.period THEN 1 ELSE 2
MulAmp(e, i) == RDiv(RAbs(e.amps[i]), FreqCount(e, i))
BadModes(e) ==
  LET m == e.m
      val(k) == RSum([i \in 1..Len(e.amps) |-> IF e.kept[i] THEN e.amps[i] \otimes Cos(RMul(RMul(2, Pi), RDiv(e.freqs[i] * (k - 1), e.period))) ELSE "0"])
      sc == RSumAbs(e.amps)
      number == RSum([i \in 1..Len(e.amps) |-> IF e.kept[i] THEN FreqCount(e, i) ELSE 0])
  IN Clause("prony-largest-kept", REq(number, e.nkeep) /\ \A i, j \in 1..Len(e.amps) : e.kept[i] /\ ~e.kept[j] => RLeq(MulAmp(e, j), MulAmp(e, i)))
     \cup Clause("prony-filtered-data", HasShape(e.out, <<m>>) /\ \A k \in 1..m : WithinTol(e.out[k], val(k), sc, Tol))

Bad(e) ==
  CASE e.ev = "eval" -> BadEval(e)
    [] e.ev = "keval" -> BadKEval(e)
    [] e.ev = "fit" -> BadFit(e)
    [] e.ev = "kfit" -> BadKFit(e)
    [] e.ev = "asymptotic" -> BadAsymptotic(e)
    [] e.ev = "friction" -> BadFriction(e)
    [] e.ev = "fricquad" -> BadFricQuad(e)
    [] e.ev = "peval" -> BadPEval(e)
    [] e.ev = "pkeval" -> BadPKEval(e)
    [] e.ev = "pfit" -> BadPFit(e)
    [] e.ev = "pkeep" -> BadPKeep(e)
    [] e.ev = "inspect" -> BadInspect(e)
    [] e.ev = "modes" -> BadModes(e)
    [] e.ev = "same" -> Clause(e.what, Close(e.a, e.b, e.tol))
    [] e.ev = "refused" -> Clause("refused:" \o e.what, e.outcome = "exc")
    [] OTHER -> {"unexpected-failure"}
TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext == l <= Len(Events) /\ Report(Bad(Events[l])) /\ l' = l + 1 /\ UNCHANGED tid
=============================================================================
