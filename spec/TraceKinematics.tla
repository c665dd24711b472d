-------------------------- MODULE TraceKinematics --------------------------
EXTENDS Kinematics, TraceBase

Tol == "1/1000000000"
N(e) == Size(e.x)
D(e) == Size(At(e.x, 0))
\* scale of the quantities involved, so that the tolerance is relative
MaxNum(a) == MaxAbs(SelectSeq(a, LAMBDA row : \A c \in 1..Len(row) : IsRat(row[c])))
Sc(e) == RMaxOf(<<MaxNum(e.x), IF "v" \in DOMAIN e THEN MaxNum(e.v) ELSE 0, IF "jump" \in DOMAIN e /\ e.jumps THEN e.jump ELSE 0>>)
           \oslash (RMinOf(<<e.dt, "1">>) \otimes RMinOf(<<e.dt, "1">>))

J(e) == IF e.jumps THEN [on |-> TRUE, jump |-> e.jump, thr |-> e.thr] ELSE NoJump

\* ks: the points (from 0) of the input which the output consists of; F(k, c): what is expected at one of them
CloseAll(e, got, ks, d, F(_, _)) ==
  IF Len(ks) = 0 THEN Size(got) = 0
  ELSE LET sc == Sc(e) IN
       /\ HasShape(got, <<Len(ks), d>>)
       /\ \A i \in 1..Len(ks), c \in Range0(d) : WithinRel(At2(got, i - 1, c), F(ks[i], c), sc, Tol)

SameCarried(e, ks) ==  \* time and position of the points are carried over, and the timestep is kept
  Clause("time-alignment", /\ Size(e.otime) = Len(ks)
                           /\ \A i \in 1..Len(ks) : REq(At(e.otime, i - 1), At(e.time, ks[i])))
  \cup Clause("position-carried", CloseAll(e, e.ox, ks, D(e), LAMBDA k, c : At2(e.x, k, c)))
  \cup Clause("dt-carried", REq(e.odt, e.dt))
  \cup Clause("input-unchanged", e.unchanged)

BadXframe(e) ==
  LET n == N(e)  d == D(e)
      dt == IF e.fix THEN (IF RLt(0, e.dtarg) THEN e.dtarg ELSE RoundTo(At(e.time, 1) \ominus At(e.time, 0), e.round))
            ELSE At(e.time, 1) \ominus At(e.time, 0)
      tm == IF e.fix THEN FixedTime(n, dt) ELSE e.time
  IN Clause("xframe-dt", WithinTol(e.odt, dt, dt, Tol))
     \cup Clause("xframe-time", /\ HasShape(e.otime, <<n>>)
                                /\ \A i \in Range0(n) : WithinTol(At(e.otime, i), At(tm, i), At(tm, n - 1), Tol))
     \cup Clause("xframe-x", HasShape(e.ox, <<n, d>>) /\ e.ox = e.x)
     \cup Clause("xframe-v", IF e.hasv THEN HasShape(e.ov, <<n, d>>) /\ e.ov = e.v ELSE Absent(e.ov))
     \cup Clause("xframe-a", IF e.hasa THEN HasShape(e.oa, <<n, d>>) /\ e.oa = e.a ELSE Absent(e.oa))

KeptVa(e) == KeptPoints(N(e), LAMBDA k : FromNeighbours(e.x, k))
KeptVel(e) == KeptPoints(N(e), LAMBDA k : FromNeighbours(e.v, k) /\ Present(e.x, k))
KeptPos(e) == KeptPoints(N(e), LAMBDA k : FromNeighbours(e.x, k) /\ Present(e.v, k))
BadVa(e) ==
  LET ks == KeptVa(e) IN
  SameCarried(e, ks)
  \cup Clause("velocity", CloseAll(e, e.ov, ks, D(e), LAMBDA k, c : VelMix(e.x, e.dt, e.lam, k, c, J(e))))
  \cup Clause("acceleration", CloseAll(e, e.oa, ks, D(e), LAMBDA k, c : Accel(e.x, e.dt, k, c, J(e))))

BadAFromVel(e) ==
  LET ks == KeptVel(e) IN
  SameCarried(e, ks)
  \cup Clause("velocity-carried", CloseAll(e, e.ov, ks, D(e), LAMBDA k, c : At2(e.v, k, c)))
  \cup Clause("acceleration-from-velocity", CloseAll(e, e.oa, ks, D(e), LAMBDA k, c : AccelFromVel(e.v, e.dt, k, c)))

BadAFromPos(e) ==
  LET ks == KeptPos(e) IN
  SameCarried(e, ks)
  \cup Clause("velocity-carried", CloseAll(e, e.ov, ks, D(e), LAMBDA k, c : At2(e.v, k, c)))
  \cup Clause("acceleration-from-position", CloseAll(e, e.oa, ks, D(e), LAMBDA k, c : Accel(e.x, e.dt, k, c, NoJump)))

BadConcat(e) ==   \* (x, v) becomes the position and (v, a) the velocity
  LET n == N(e)  d == D(e)
  IN Clause("concat-x", /\ HasShape(e.ox, <<n, 2 * d>>)
                        /\ \A i \in Range0(n), c \in Range0(d) : At2(e.ox, i, c) = At2(e.x, i, c) /\ At2(e.ox, i, d + c) = At2(e.v, i, c))
     \cup Clause("concat-v", /\ HasShape(e.ov, <<n, 2 * d>>)
                             /\ \A i \in Range0(n), c \in Range0(d) : At2(e.ov, i, c) = At2(e.v, i, c) /\ At2(e.ov, i, d + c) = At2(e.a, i, c))
     \cup Clause("concat-time", e.otime = e.time)
     \cup Clause("concat-dt", REq(e.odt, e.dt))
     \cup Clause("input-unchanged", e.unchanged)

Bad(e) ==
  CASE e.ev = "xframe" -> BadXframe(e)
    [] e.ev = "va" -> BadVa(e)
    [] e.ev = "a_vel" -> BadAFromVel(e)
    [] e.ev = "a_pos" -> BadAFromPos(e)
    [] e.ev = "concat" -> BadConcat(e)
    [] OTHER -> {"unexpected-failure"}

TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Events)
  /\ Report(Bad(Events[l]))
  /\ l' = l + 1
  /\ UNCHANGED tid
=============================================================================
