--------------------------- MODULE MC_FreeEnergy ---------------------------
(***************************************************************************)
(* Samples arrive one at a time and a machine drops each into its bin of a *)
(* fixed grid that covers them.  In every reachable history each sample is *)
(* in exactly one bin, the bins of the definition are the counters of the  *)
(* machine, order does not matter, and the derivative of the interpolating *)
(* spline is exact for cubic polynomials at unequal abscissas.             *)
(***************************************************************************)
EXTENDS FreeEnergy, TLC
CONSTANTS Vals, Grids, MaxN
MCGrids == { <<"0", "1", "2", "3">>, <<"0", "1/2", "3/2", "2", "3">> }
VARIABLES xs, g, counts
vars == <<xs, g, counts>>
Init == g \in Grids /\ xs = <<>> /\ counts = [i \in 1..(Len(g) - 1) |-> 0]
\* the machine: the first bin whose upper edge is not below the sample
BinOf(x) == CHOOSE i \in 1..(Len(g) - 1) : RLeq(x, g[i + 1]) /\ \A j \in 1..(i - 1) : RLt(g[j + 1], x)
Drop(x) == Len(xs) < MaxN /\ xs' = Append(xs, x) /\ counts' = [counts EXCEPT ![BinOf(x)] = @ + 1] /\ UNCHANGED g
Next == \E x \in Vals : Drop(x)
Spec == Init /\ [][Next]_vars
E_(x) == [x |-> x, edges |-> g]
NBins == Len(g) - 1
ExactlyOnce == \A k \in 1..Len(xs) : \E i \in 1..NBins : InBin(g, i, xs[k]) /\ \A j \in (1..NBins) \ {i} : ~InBin(g, j, xs[k])
BinsAreCounters == LET b == Bins(E_(xs)) IN \A i \in 1..NBins : Len(b[i]) = counts[i]
Total == RSum(counts) = R(Len(xs))
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == LET b == Bins(E_(Reverse(xs))) IN \A i \in 1..NBins : Len(b[i]) = counts[i]
Cubic(c, x) == PEval(c, x)
SplineExact == Len(xs) = 0 => \A c \in { <<"1", "2", "0", "-1">>, <<"0", "-1", "3", "2">>, <<"5", "0", "0", "0">> } :
   LET gg == <<"0", "1/3", "1", "2", "7/3", "4">> d == SplineDer(gg, [i \in 1..6 |-> Cubic(c, gg[i])]) IN
   \A i \in 1..6 : REq(d[i], PEval(PDer(c), gg[i]))
SplineLinear == Len(xs) = 0 => LET gg == <<"0", "1/3", "1", "2", "7/3">> y1 == <<"1", "0", "2", "5", "-1">> y2 == <<"0", "3", "1", "1", "2">>
   s == SplineDer(gg, [i \in 1..5 |-> y1[i] \oplus (3 \otimes y2[i])]) a == SplineDer(gg, y1) b == SplineDer(gg, y2) IN
   \A i \in 1..5 : REq(s[i], a[i] \oplus (3 \otimes b[i]))
=============================================================================
