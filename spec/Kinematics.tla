----------------------------- MODULE Kinematics -----------------------------
(***************************************************************************)
(* Trajectory frames and the velocities / accelerations derived from them. *)
(*                                                                         *)
(* A frame has a time axis, positions x (n x d), possibly v and a, and the *)
(* timestep dt.  Derived quantities live on the points which have both     *)
(* neighbours, k = 1 .. n-2, and keep the time stamp and position of that  *)
(* point.  Positions of a periodic variable jump by `jump' when they cross *)
(* the boundary; a difference beyond the threshold is brought back by one  *)
(* period.                                                                 *)
(***************************************************************************)
EXTENDS Rat

\* ---- one difference, with the optional removal of a jump ----------------
Unjump(d, jump, thr) ==
  LET d1 == IF RLt(RNeg(thr), d) THEN d ELSE d \oplus jump
  IN  IF RLt(d1, thr) THEN d1 ELSE d1 \ominus jump

Step(x, k, c, j) ==   \* x(k) - x(k-1) of component c; j is [on, jump, thr]
  LET d == At2(x, k, c) \ominus At2(x, k - 1, c)
  IN  IF j.on THEN Unjump(d, j.jump, j.thr) ELSE d

NoJump == [on |-> FALSE, jump |-> "0", thr |-> "0"]

\* ---- finite differences at point k ---------------------------------------
Accel(x, dt, k, c, j) == (Step(x, k + 1, c, j) \ominus Step(x, k, c, j)) \oslash (dt \otimes dt)
VelMix(x, dt, lam, k, c, j) ==   \* lam = 1/2: centred; lam = 0: backward; lam = 1: forward
  ((lam \otimes Step(x, k + 1, c, j)) \oplus ((1 \ominus lam) \otimes Step(x, k, c, j))) \oslash dt
AccelFromVel(v, dt, k, c) == (At2(v, k + 1, c) \ominus At2(v, k - 1, c)) \oslash (2 \otimes dt)

\* ---- frames ---------------------------------------------------------------
Interior(n) == 1..(n - 2)
NInterior(n) == MaxI(n - 2, 0)
\* missing samples ("nan"): a derived point exists where everything it is made from does
Present(a, k) == \A c \in Range0(Size(At(a, k))) : IsRat(At2(a, k, c))
FromNeighbours(a, k) == Present(a, k - 1) /\ Present(a, k) /\ Present(a, k + 1)
KeptPoints(n, ok(_)) == SelectSeq([i \in 1..NInterior(n) |-> i], ok)

FixedTime(n, dt) == Tab(n, LAMBDA i : i \otimes dt)
RoundTo(x, r) ==    \* x to the nearest multiple of r (ties are not exercised)
  r \otimes RFloor((x \oslash r) \oplus "1/2")
=============================================================================
