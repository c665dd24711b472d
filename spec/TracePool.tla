------------------------------ MODULE TracePool ------------------------------
(* Several trajectories: every time sample has the same weight.            *)
EXTENDS Models, TraceBase
Tol == "1/100000000"

Flat(n, F(_)) == [i \in 1..n |-> F(i)]
BadPool(e) ==   \* e.single: one array per trajectory (flattened), e.lens: their numbers of samples, e.out: pooled
  LET n == Size(e.out)  k == Len(e.lens)  tot == RSum(e.lens)
  IN Clause("pooled-average:" \o e.what,
       /\ HasShape(e.out, <<n>>) /\ n > 0
       /\ HasShape(e.single, <<k, n>>)
       /\ \A i \in Range0(n) : WithinTol(At(e.out, i), RDot([j \in 1..k |-> At2(e.single, j - 1, i)], e.lens) \oslash tot, MaxAbs(e.single), Tol))

BadSame(e) == Clause(e.clause \o ":" \o e.what, Size(e.a) = Size(e.b) /\ Size(e.a) > 0 /\ HasShape(e.b, <<Size(e.b)>>) /\ Close(e.a, e.b, Tol \otimes (1 \oplus MaxAbs(e.a))))

Bad(e) ==
  CASE e.ev = "pool" -> BadPool(e)
    [] e.ev = "same" -> BadSame(e)
    [] OTHER -> {"unexpected-failure"}
TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext == l <= Len(Events) /\ Report(Bad(Events[l])) /\ l' = l + 1 /\ UNCHANGED tid
=============================================================================
