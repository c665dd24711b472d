----------------------------- MODULE TraceData -----------------------------
(* What an estimator takes from the trajectories it is given: sizes, time  *)
(* step, truncation, description; and the conversion to the observable of  *)
(* the generalised Fokker-Planck equation.                                 *)
EXTENDS Models, Data, TraceBase
Tol == "1/100000000"
FF_ == INSTANCE TraceForce
CC_ == INSTANCE TraceCorrs

BadAccept(e) ==
  LET n == TruncOf(e.times, e.trunc)
      lens == [i \in 1..Len(e.times) |-> Len(e.times[i])]
  IN Clause("truncation", e.otrunc = n /\ e.mtrunc = n)
     \cup Clause("weights", REq(e.weightsum, RSum(lens)) /\ Size(e.weights) = Len(lens) /\ \A i \in 1..Len(lens) : REq(e.weights[i], lens[i]))
     \cup Clause("time-step", REq(e.odt, e.dt) /\ REq(e.mdt, e.dt))
     \cup Clause("dimensions", e.dimx = e.d /\ e.dimobs = e.dobs)
     \cup Clause("observable", e.lobs = e.wantobs)
     \cup Clause("lengths", \A i \in 1..Size(e.lags) : e.lags[i] = n)

Eager3(xs, d) == [c \in 1..d |-> Moments(Eager(All(xs, c)))]
BadDescribe(e) ==
  LET d == Len(e.xs[1][1])  n == RSum([i \in 1..Len(e.xs) |-> Len(e.xs[i])]) IN
  Clause("describe-count", REq(e.nobs, n))
  \cup (IF e.stats = "none" THEN Clause("describe-shape", e.dim = d) ELSE
    Clause("describe-range", HasShape(e.lo, <<d>>) /\ HasShape(e.hi, <<d>>) /\ \A c \in 1..d : LET y == Eager(All(e.xs, c)) IN REq(e.lo[c], RMinOf(y)) /\ REq(e.hi[c], RMaxOf(y)))
    \cup Clause("describe-mean", HasShape(e.mean, <<d>>) /\ \A c \in 1..d : LET y == Eager(All(e.xs, c)) IN WithinTol(e.mean[c], RSum(y) \oslash n, MaxAbs(y), Tol)))
  \cup (IF Absent(e.var) THEN {} ELSE LET M == Eager3(e.xs, d) IN
          Clause("describe-variance", HasShape(e.var, <<d>>) /\ \A c \in 1..d :
             WithinRel(e.var[c], RMul(M[c].m2, n) \oslash (n \ominus 1), MaxAbs(All(e.xs, c)) \otimes MaxAbs(All(e.xs, c)), Tol))
          \* skewness m3 / m2^(3/2), kurtosis m4 / m2^2 - 3
          \cup Clause("describe-skewness", HasShape(e.skew, <<d>>) /\ \A c \in 1..d :
             LET s2 == e.skew[c] \otimes e.skew[c]  w2 == (M[c].m3 \otimes M[c].m3) \oslash (M[c].m2 \otimes M[c].m2 \otimes M[c].m2) IN
             WithinTol(s2, w2, w2, "1/1000000") /\ (RLeq("-1/1000000", e.skew[c] \otimes M[c].m3)))
          \cup Clause("describe-kurtosis", HasShape(e.kurt, <<d>>) /\ \A c \in 1..d :
             LET w == M[c].m4 \oslash (M[c].m2 \otimes M[c].m2) IN WithinTol(e.kurt[c] \oplus 3, w, w, "1/1000000")))

\* conversion: the observable becomes the time derivative of the kernel functions
BadGfpe(e) ==
  LET ts == e.trajs  m == e.model IN
  Clause("gfpe-observable", Size(e.out) = Len(ts) /\ \A k \in 1..Len(ts) :
        LET D == Eager(AllDE(m, ts[k])) n == Len(D) IN
        HasShape(e.out[k], <<NSteps(ts[k]), n>>) /\ \A t \in 1..NSteps(ts[k]), i \in 1..n : WithinTol(e.out[k][t][i], D[i][t], MaxAbs(D), Tol))
  \cup Clause("gfpe-model", e.lobs = e.obsname /\ e.dimobs = NE(m, ts[1]) /\ ~e.rank)
  \cup Clause("gfpe-rest-unchanged", e.unchanged)

Bad(e) ==
  CASE e.ev = "accept" -> BadAccept(e)
    [] e.ev = "describe" -> BadDescribe(e)
    [] e.ev = "gfpe" -> BadGfpe(e)
    [] e.ev = "force" -> FF_!BadForce(e)
    [] e.ev = "corrs" -> CC_!BadCorrs(e)
    [] e.ev = "refused" -> Clause("refused:" \o e.what, e.outcome = "exc")
    [] e.ev = "accepted" -> Clause("accepted:" \o e.what, e.outcome = "ok")
    [] e.ev = "same" -> Clause(e.what, Close(e.a, e.b, e.tol))
    [] OTHER -> {"unexpected-failure"}
TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext == l <= Len(Events) /\ Report(Bad(Events[l])) /\ l' = l + 1 /\ UNCHANGED tid
=============================================================================
