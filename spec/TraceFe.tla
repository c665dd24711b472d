------------------------------ MODULE TraceFe ------------------------------
(***************************************************************************)
(* Free energy from the histogram of one dimensional trajectories.         *)
(* e.x, e.v, e.a: all samples of all trajectories; e.edges: the edges of   *)
(* the bins, given by the rule asked for.                                  *)
(***************************************************************************)
EXTENDS FreeEnergy, TraceBase
Tol == "1/10000000"

\* equal bins between the extreme samples: a number of edges
BadEdges(e) ==
  LET lo == RMinOf(e.x) hi == RMaxOf(e.x) n == Len(e.edges) IN
  IF ~e.number THEN Clause("bins-cover", REq(e.edges[1], lo) /\ REq(e.edges[n], hi))
  ELSE Clause("bins-cover", n = e.bins /\ \A i \in 1..n : WithinTol(e.edges[i], lo \oplus ((hi \ominus lo) \otimes RDiv(i - 1, n - 1)), hi, "1/1000000000000"))

BadHist(e) ==
  LET bs == Bins(e)  nb == Len(bs)  n == Len(e.x) IN
  Clause("histogram-positions", HasShape(e.xf, <<nb>>) /\ \A i \in 1..nb : WithinTol(e.xf[i], Mid(e.edges, i), Mid(e.edges, i), Tol))
  \cup Clause("histogram", HasShape(e.p, <<nb>>) /\ \A i \in 1..nb : WithinTol(e.p[i], RDiv(Len(bs[i]), n), 1, Tol))
  \cup BadEdges(e)

Rd3(s) == [i \in 1..Len(s) |-> RRound(s[i], 80)]

BadFe(e) ==
  LET bs0 == Bins(e)
      full == SelectSeq([i \in 1..Len(bs0) |-> i], LAMBDA i : Len(bs0[i]) > 0)
      nb == Len(full)  n == Len(e.x)
      bs == [i \in 1..nb |-> bs0[full[i]]]
      \* shape of every returned series
      shape == \A s \in {e.xf, e.fe, e.force, e.ma, e.ft, e.mass} : HasShape(s, <<nb>>)
      most == CHOOSE i \in 1..nb : \A j \in 1..nb : Len(bs[j]) <= Len(bs[i])
      avg(i, s) == RSum([k \in 1..Len(bs[i]) |-> s[bs[i][k]]]) \oslash Len(bs[i])
      v2 == Eager([k \in 1..n |-> e.v[k] \otimes e.v[k]])
      massAvg == RSum(v2) \oslash n
      \* the returned free energy and masses enter the splines as they are, after they have been checked
      dfe == Eager(SplineDer(Rd3(e.xf), Rd3(e.fe)))
      pr == [i \in 1..nb |-> RDiv(Len(bs[i]), n)]
      dmp == Eager(SplineDer(Rd3(e.xf), Rd3([i \in 1..nb |-> pr[i] \otimes avg(i, v2)])))
      sF == MaxAbs(dfe) sT == MaxAbs(dmp) \oslash RMinOf(pr)
  IN Clause("free-energy-shape", shape)
     \cup (IF ~shape THEN {} ELSE
       Clause("free-energy-positions", \A i \in 1..nb : WithinTol(e.xf[i], Mid(e.edges, full[i]), Mid(e.edges, full[i]), Tol))
       \cup Clause("free-energy", \A i \in 1..nb : WithinTol(Exp(RNeg(e.fe[i])), RDiv(Len(bs[i]), Len(bs[most])), 1, Tol))
       \cup Clause("mass", \A i \in 1..nb : WithinTol(e.mass[i], avg(i, v2), e.mass[i], Tol))
       \cup Clause("mean-acceleration", \A i \in 1..nb : WithinTol(e.ma[i], avg(i, e.a), MaxAbs(e.a), Tol))
       \cup Clause("force-from-free-energy", \A i \in 1..nb : WithinTol(e.force[i] \otimes massAvg, RNeg(e.kT \otimes dfe[i]), e.kT \otimes sF, "1/100000"))
       \cup Clause("force-with-mass-gradient", \A i \in 1..nb : WithinTol(e.ft[i] \otimes pr[i], dmp[i], sT, "1/100000")))
     \cup BadEdges(e)

Bad(e) ==
  CASE e.ev = "hist" -> BadHist(e)
    [] e.ev = "fe" -> BadFe(e)
    [] e.ev = "refused" -> Clause("refused:" \o e.what, e.outcome = "exc")
    [] e.ev = "same" -> Clause(e.what, Close(e.a, e.b, e.tol))
    [] OTHER -> {"unexpected-failure"}
TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext == l <= Len(Events) /\ Report(Bad(Events[l])) /\ l' = l + 1 /\ UNCHANGED tid
=============================================================================
