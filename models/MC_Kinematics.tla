--------------------------- MODULE MC_Kinematics ---------------------------
(***************************************************************************)
(* A sampler appends one position at a time (the true position moves by at *)
(* most S per step); the recorded variable is the true one wrapped into a  *)
(* period P.  In every reachable history the derived frame must satisfy:   *)
(*  - wrapping is invisible: with jump correction, the wrapped history has *)
(*    the velocities and accelerations of the true one;                    *)
(*  - the frame is consistent: v and a are tied by the discrete identity   *)
(*    forward velocity - backward velocity = a dt, and centred = mean;     *)
(*  - uniform motion has the exact velocity and no acceleration, and       *)
(*    reversing time flips v and keeps a.                                  *)
(***************************************************************************)
EXTENDS Kinematics, TLC
CONSTANTS P, S, MaxLen, Dts
VARIABLES xs, dt
vars == <<xs, dt>>

Wrapped == [i \in 1..Len(xs) |-> << xs[i] % P >>]
True1   == [i \in 1..Len(xs) |-> << xs[i] >>]
Rev     == [i \in 1..Len(xs) |-> << xs[Len(xs) + 1 - i] >>]
Jmp     == [on |-> TRUE, jump |-> P, thr |-> R(P) \ominus R(S) \ominus "1/2"]

Init == xs = <<0>> /\ dt \in Dts
Sample(s) == /\ Len(xs) < MaxLen
             /\ xs' = Append(xs, xs[Len(xs)] + s)
             /\ UNCHANGED dt
Next == \E s \in -S..S : Sample(s)
Spec == Init /\ [][Next]_vars

N == Len(xs)
WrapInvisible == \A k \in Interior(N), lam \in {"0", "1/2", "1"} :
  /\ Accel(Wrapped, dt, k, 0, Jmp) = Accel(True1, dt, k, 0, NoJump)
  /\ VelMix(Wrapped, dt, lam, k, 0, Jmp) = VelMix(True1, dt, lam, k, 0, NoJump)
DiscreteIdentity == \A k \in Interior(N) :
  LET f == VelMix(True1, dt, "1", k, 0, NoJump)
      b == VelMix(True1, dt, "0", k, 0, NoJump)
      m == VelMix(True1, dt, "1/2", k, 0, NoJump)
  IN /\ f \ominus b = (Accel(True1, dt, k, 0, NoJump) \otimes dt)
     /\ (2 \otimes m) = (f \oplus b)
Reversal == \A k \in Interior(N) :
  /\ Accel(Rev, dt, N - 1 - k, 0, NoJump) = Accel(True1, dt, k, 0, NoJump)
  /\ VelMix(Rev, dt, "1/2", N - 1 - k, 0, NoJump) = RNeg(VelMix(True1, dt, "1/2", k, 0, NoJump))
Uniform == (\E s \in -S..S : \A k \in 2..N : xs[k] - xs[k-1] = s) /\ N > 2 =>
  \A k \in Interior(N) : /\ Accel(True1, dt, k, 0, NoJump) = "0"
                         /\ VelMix(True1, dt, "1/2", k, 0, NoJump) = (R(xs[2] - xs[1]) \oslash dt)
VelocityRoundTrip ==  \* acceleration computed from the centred velocities of uniform acceleration is that acceleration
  \A k \in 2..(N - 3) :
    LET v == [i \in 1..N |-> << IF i = 1 \/ i = N THEN "0" ELSE VelMix(True1, dt, "1/2", i - 1, 0, NoJump) >>]
        a(i) == Accel(True1, dt, i, 0, NoJump)
    IN AccelFromVel(v, dt, k, 0) = ((a(k - 1) \oplus (2 \otimes a(k)) \oplus a(k + 1)) \oslash 4)
=============================================================================
