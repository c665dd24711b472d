-------------------------- MODULE TraceCorrelation --------------------------
EXTENDS Correlation, TraceBase

Tol == "1/10000000000"

\* e.a: na series, e.b: nb series (e.b = e.a for an autocorrelation), e.out: na x nb x lags
\* e.order: "ab" -> out[i][j] = <a_i(t) b_j(t+n)>, "ba" -> out[i][j] = <a_j(t) a_i(t+n)>
First(e, i, j) == IF e.order = "ab" THEN e.a[i + 1] ELSE e.a[j + 1]
Second(e, i, j) == IF e.order = "ab" THEN e.b[j + 1] ELSE e.a[i + 1]
Scale(e) == MaxAbs(e.a) \otimes MaxAbs(e.b)

BadCorr(e) ==
  LET na == Size(e.a)  nb == Size(e.b)  N == Size(e.a[1])  L == NLags(N, e.trunc)
  IN Clause("number-of-lags", HasShape(e.out, <<na, nb, L>>))
     \cup Clause("lagged-mean", \A i \in Range0(na), j \in Range0(nb), n \in Range0(L) :
            WithinRel(At3(e.out, i, j, n), Corr(First(e, i, j), Second(e, i, j), n), Scale(e), Tol))
     \cup Clause("input-unchanged", e.unchanged)

\* Some of the lags of a long correlation: e.lags, with e.nlags computed in all
BadCorrLags(e) ==
  LET na == Size(e.a)  nb == Size(e.b)  N == Size(e.a[1])  L == NLags(N, e.trunc)
  IN Clause("number-of-lags", e.nlags = L /\ HasShape(e.out, <<na, nb, Size(e.lags)>>))
     \cup Clause("lagged-mean", \A i \in Range0(na), j \in Range0(nb), m \in Range0(Size(e.lags)) :
            WithinRel(At3(e.out, i, j, m), Corr(First(e, i, j), Second(e, i, j), e.lags[m + 1]), Scale(e), Tol))

Bad(e) ==
  CASE e.ev = "corr" -> BadCorr(e)
    [] e.ev = "corrlags" -> BadCorrLags(e)
    [] OTHER -> {"unexpected-failure"}

TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext == l <= Len(Events) /\ Report(Bad(Events[l])) /\ l' = l + 1 /\ UNCHANGED tid
=============================================================================
