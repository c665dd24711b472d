------------------------------ MODULE MC_Pool ------------------------------
(***************************************************************************)
(* Samples (a pair of values) arrive one at a time, either continuing the  *)
(* last trajectory or starting a new one; running sums are kept.  In every *)
(* reachable collection the pooled averages are those of all samples, do   *)
(* not depend on the order of the trajectories, and static averages not on *)
(* where trajectories are cut; a repeated collection has the same averages.*)
(***************************************************************************)
EXTENDS Models, Data, TLC
CONSTANTS Vals, MaxTotal
VARIABLES As, Bs, sums      \* two series per trajectory; running sums of 1, a, a b
vars == <<As, Bs, sums>>
MCVals == {-1, 2, 3}

Init == /\ \E a, b \in Vals : As = <<<<a>>>> /\ Bs = <<<<b>>>> /\ sums = <<1, a, a * b>>
Add(a, b) == sums' = <<sums[1] + 1, sums[2] + a, sums[3] + a * b>>
Continue(a, b) == LET n == Len(As) IN
  /\ As' = [As EXCEPT ![n] = Append(@, a)] /\ Bs' = [Bs EXCEPT ![n] = Append(@, b)] /\ Add(a, b)
New(a, b) == As' = Append(As, <<a>>) /\ Bs' = Append(Bs, <<b>>) /\ Add(a, b)
Next == sums[1] < MaxTotal /\ \E a, b \in Vals : Continue(a, b) \/ New(a, b)
Spec == Init /\ [][Next]_vars

Flat(S) == LET f[i \in 1..Len(S)] == IF i = 1 THEN S[1] ELSE f[i - 1] \o S[i] IN f[Len(S)]
Back(S) == [i \in 1..Len(S) |-> S[Len(S) + 1 - i]]
EverySampleOnce == /\ PoolMean(As) = RDiv(sums[2], sums[1]) /\ PoolDot(As, Bs) = RDiv(sums[3], sums[1])
CutsDoNotMatter == /\ PoolMean(As) = PoolMean(<<Flat(As)>>) /\ PoolDot(As, Bs) = PoolDot(<<Flat(As)>>, <<Flat(Bs)>>)
Shortest == LET l == {Len(As[i]) : i \in 1..Len(As)} IN CHOOSE n \in l : \A m \in l : n <= m
OrderDoesNotMatter == /\ PoolDot(Back(As), Back(Bs)) = PoolDot(As, Bs) /\ PoolMean(Back(As)) = PoolMean(As)
                      /\ \A n \in 0..(Shortest - 1) : PoolCorr(Back(As), Back(Bs), n) = PoolCorr(As, Bs, n)
Twice == /\ PoolDot(As \o As, Bs \o Bs) = PoolDot(As, Bs)
         /\ \A n \in 0..(Shortest - 1) : PoolCorr(As \o As, Bs \o Bs, n) = PoolCorr(As, Bs, n)
ZeroLagIsStatic == PoolCorr(As, Bs, 0) = PoolDot(As, Bs)
\* pooled correlations are length weighted means of the single ones, so they lie between them
Between == \A n \in 0..(Shortest - 1) :
  LET c == [i \in 1..Len(As) |-> Corr(As[i], Bs[i], n)] IN RLeq(RMinOf(c), PoolCorr(As, Bs, n)) /\ RLeq(PoolCorr(As, Bs, n), RMaxOf(c))
\* Gram: Cauchy-Schwarz on pooled averages
Schwarz == RLeq(PoolDot(As, Bs) \otimes PoolDot(As, Bs), PoolDot(As, As) \otimes PoolDot(Bs, Bs))
\* description of all blocks = description of one block with everything
Blocks == [i \in 1..Len(As) |-> [k \in 1..Len(As[i]) |-> <<As[i][k]>>]]
Description == /\ PooledMean(Blocks, 1) = PoolMean(As)
               /\ sums[1] > 1 => PooledVar(Blocks, 1) = ((PoolDot(As, As) \ominus (PoolMean(As) \otimes PoolMean(As))) \otimes RDiv(sums[1], sums[1] - 1))
\* described block by block, merged from either end, or as a whole: the same moments
Merged(xs) == LET f[i \in 1..Len(xs)] == IF i = 1 THEN Moments(xs[1]) ELSE Merge(f[i - 1], Moments(xs[i])) IN f[Len(xs)]
Merging == Merged(As) = Moments(Flat(As)) /\ Merged(Back(As)) = Moments(Flat(As))
           /\ RLeq(Moments(Flat(As)).m2 \otimes Moments(Flat(As)).m2, Moments(Flat(As)).m4)
\* number of lags: every trajectory has that many samples (equal steps), monotone in the truncation time, not more than it
Times == [i \in 1..Len(As) |-> [k \in 1..Len(As[i]) |-> k - 1]]
Lags == \A t \in 0..MaxTotal : LET n == TruncOf(Times, t) IN
  /\ n >= 1 /\ n <= Shortest /\ n = MinI(t + 1, Shortest) /\ n <= TruncOf(Times, t + 1)
=============================================================================
