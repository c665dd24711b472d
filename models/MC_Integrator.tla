--------------------------- MODULE MC_Integrator ---------------------------
(***************************************************************************)
(* The integrator as a machine: the state is the trajectory so far and the *)
(* noise met, a step appends the next point.  In every reachable state     *)
(*  - continuing from the trajectory is determined by the trajectory: a    *)
(*    run started from any cut of it with the rest of the noise is it;     *)
(*  - with linear force and constant kernel the trajectory is linear in    *)
(*    noise and initial conditions, and reflecting everything reflects it; *)
(*  - without force and kernel the motion is uniformly accelerated;        *)
(*  - with a harmonic force alone each step is the Taylor polynomial of    *)
(*    degree four of the exact propagator.                                 *)
(***************************************************************************)
EXTENDS Integrator, TLC
CONSTANTS MaxN, Noises, Starts
VARIABLES sys, tr, xi
vars == <<sys, tr, xi>>
\* systems: basis of polynomials of degree 1 in one dimension
Pol == [kind |-> "poly", family |-> "Polynomial", deg |-> 1, removed |-> FALSE]
Sys(a, b, ks) == [kind |-> "const", b |-> Pol, P |-> "absent", coeff |-> <<<<a>>, <<b>>>>, K |-> [j \in 1..Len(ks) |-> <<<<ks[j]>>>>], dt |-> "1/2"]
Free == Sys("0", "0", <<"0", "0">>)
Harmonic == Sys("0", "-1", <<"0", "0">>)
Gle == Sys("0", "-1", <<"2", "1", "-1/2">>)
GleT == Sys("0", "-1", <<"2", "1", "-1/2", "1/4", "1">>)
Systems == {Free, Harmonic, Gle, GleT}
Init == sys \in Systems /\ \E s \in Starts : tr = << [x |-> <<s[1]>>, v |-> <<s[2]>>] >> /\ xi = <<"0">>
MCStarts == { <<"1", "0">>, <<"0", "-2">> }
EsOf(t) == Eager([k \in 1..Len(t) |-> Rd(EVec(sys, t[k].x, t[k].v))])
StepOf(t, z) == LET n == Len(t) IN Step(sys, EsOf(t), n, t[n].x, t[n].v, <<z>>)
Advance(z) == Len(tr) < MaxN /\ tr' = Append(tr, StepOf(tr, z)) /\ xi' = Append(xi, z) /\ UNCHANGED sys
Next == \E z \in Noises : Advance(z)
Spec == Init /\ [][Next]_vars
Fine == "1/1000000000000000000000000000000"
Same(p, q) == WithinTol(p.x[1], q.x[1], 100, Fine) /\ WithinTol(p.v[1], q.v[1], 100, Fine)
RECURSIVE Run(_, _)
Run(t, zs) == IF zs = <<>> THEN t ELSE Run(Append(t, StepOf(t, Head(zs))), Tail(zs))
N == Len(tr)
Restart == \A k \in 1..N : Run(SubSeq(tr, 1, k), SubSeq(xi, k + 1, N)) = tr
Scaled(c) == LET t == Run(<<[x |-> <<c \otimes tr[1].x[1]>>, v |-> <<c \otimes tr[1].v[1]>>]>>, [k \in 1..(N - 1) |-> c \otimes xi[k + 1]])
             IN Same(t[N], [x |-> <<c \otimes tr[N].x[1]>>, v |-> <<c \otimes tr[N].v[1]>>])
LinearRun == Scaled("3") /\ Scaled("-1")
dt == sys.dt
UniformAcceleration == sys = Free /\ N > 1 =>
   /\ REq(tr[N].v[1], tr[N-1].v[1] \oplus (dt \otimes xi[N]))
   /\ REq(tr[N].x[1], tr[N-1].x[1] \oplus (dt \otimes tr[N-1].v[1]) \oplus (((dt \otimes dt) \oslash 2) \otimes xi[N]))
\* x'' = -x + xi:  Taylor of degree 4
Taylor == sys = Harmonic /\ N > 1 =>
   LET x == tr[N-1].x[1] \ominus xi[N]  v == tr[N-1].v[1]  h == dt
       h2 == h \otimes h  c == (1 \ominus (h2 \oslash 2)) \oplus ((h2 \otimes h2) \oslash 24)
       s == h \ominus ((h2 \otimes h) \oslash 6)
   IN Same(tr[N], [x |-> <<xi[N] \oplus ((c \otimes x) \oplus (s \otimes v))>>, v |-> <<(c \otimes v) \ominus (s \otimes x)>>])
\* the memory does not see further back than the kernel
ShortMemory == sys = Gle /\ N > 4 =>
   LET cut == SubSeq(tr, N - 3, N - 1)      \* the last three points before the present one
   IN LET t == Append(cut, StepOf(cut, xi[N])) IN Same(t[4], tr[N])
=============================================================================
