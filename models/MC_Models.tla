----------------------------- MODULE MC_Models -----------------------------
(***************************************************************************)
(* Positions that are polynomials of time, x_c(t) = a + b t + c t^2, with  *)
(* their exact velocities and accelerations, and a basis of monomials of   *)
(* the two coordinates.  Each family of kernel functions of each model is  *)
(* then a polynomial of time; a machine visits sample times one by one and *)
(* records what Models says.  In every reachable state                     *)
(*  - the functions DE are the time derivatives of the functions E,        *)
(*  - friction functions are E of the velocity models, the first part of a *)
(*    hybrid model is E of the constant kernel model, its second part that *)
(*    of the position models,                                              *)
(*  - for a basis of linear functions velocity models are the constant     *)
(*    kernel model.                                                        *)
(***************************************************************************)
EXTENDS Models, Basis, TLC
CONSTANTS Coefs, Times, MaxN, Exps
MCCoefs == { <<0, 1, 0>>, <<1, -1, 2>>, <<2, 1, -1>> }
MCExps == << <<1, 0>>, <<0, 1>>, <<2, 1>>, <<0, 3>> >>
VARIABLES cx, ts
vars == <<cx, ts>>
Init == cx \in [1..2 -> Coefs] /\ ts = <<>>
Visit(t) == Len(ts) < MaxN /\ ts' = Append(ts, t) /\ UNCHANGED cx
Next == \E t \in Times : Visit(t)
Spec == Init /\ [][Next]_vars

RECURSIVE PowI(_, _)
PowI(x, n) == IF n = 0 THEN "1" ELSE x \otimes PowI(x, n - 1)
\* polynomials of time
Xp(c) == [i \in 1..3 |-> R(cx[c][i])]
RECURSIVE PPow(_, _)
PPow(p, n) == IF n = 0 THEN <<"1">> ELSE PMul(p, PPow(p, n - 1))
Bp(i) == PMul(PPow(Xp(1), Exps[i][1]), PPow(Xp(2), Exps[i][2]))
Ep(m, i) == CASE m \in VelocityModels -> PDer(Bp(i)) [] m \in PositionModels -> Bp(i)
              [] m = "Pos_gle_const_kernel" -> PDer(Xp(i)) [] m = "Pos_gle_hybrid" -> IF i <= 2 THEN PDer(Xp(i)) ELSE Bp(i - 2)
\* the trajectory record
Nb == Len(Exps)
X(t) == [c \in 1..2 |-> PEval(Xp(c), t)]
P1(e, x) == IF e = 0 THEN "0" ELSE e \otimes PowI(x, e - 1)
P2(e, x) == IF e < 2 THEN "0" ELSE (e * (e - 1)) \otimes PowI(x, e - 2)
D(i, x, r, s) == LET f(e, y, k) == CASE k = 0 -> PowI(y, e) [] k = 1 -> P1(e, y) [] k = 2 -> P2(e, y)
                 IN f(Exps[i][1], x[1], r) \otimes f(Exps[i][2], x[2], s)
Traj == [x |-> [k \in 1..Len(ts) |-> X(ts[k])],
         v |-> [k \in 1..Len(ts) |-> [c \in 1..2 |-> PEval(PDer(Xp(c)), ts[k])]],
         a |-> [k \in 1..Len(ts) |-> [c \in 1..2 |-> PEval(PDer(PDer(Xp(c))), ts[k])]],
         obs |-> [k \in 1..Len(ts) |-> X(ts[k])],
         bk |-> [k \in 1..Len(ts) |-> [i \in 1..Nb |-> D(i, X(ts[k]), 0, 0)]],
         dbk |-> [k \in 1..Len(ts) |-> [i \in 1..Nb |-> <<D(i, X(ts[k]), 1, 0), D(i, X(ts[k]), 0, 1)>>]],
         ddbk |-> [k \in 1..Len(ts) |-> [i \in 1..Nb |-> <<<<D(i, X(ts[k]), 2, 0), D(i, X(ts[k]), 1, 1)>>, <<D(i, X(ts[k]), 1, 1), D(i, X(ts[k]), 0, 2)>>>>]]]
AllModels == VelocityModels \cup PositionModels \cup {"Pos_gle_const_kernel", "Pos_gle_hybrid"}
OnTimes(p) == [k \in 1..Len(ts) |-> PEval(p, ts[k])]
DerivativesAreDerivatives == Len(ts) > 0 => LET t == Eager(Traj) IN \A m \in AllModels :
   \A i \in 1..NE(m, t) : /\ EE(m, t, i - 1) = OnTimes(Ep(m, i))
                          /\ DE(m, t, i - 1) = OnTimes(PDer(Ep(m, i)))
Families == Len(ts) > 0 => LET t == Eager(Traj) IN
   /\ NF("Pos_gle_with_friction", t) = NF("Pos_gle", t) + NE("Pos_gle_with_friction", t)
   /\ \A i \in 0..(NE("Pos_gle", t) - 1) : FF("Pos_gle_with_friction", t, NF("Pos_gle", t) + i) = EE("Pos_gle", t, i)
   /\ \A m \in AllModels, i \in 0..(Nb - 1) : FF(m, t, i) = B(t, i)
   /\ AllE("Pos_gle_hybrid", t) = AllE("Pos_gle_const_kernel", t) \o AllE("Pos_gle_overdamped", t)
   /\ AllDE("Pos_gle_hybrid", t) = AllDE("Pos_gle_const_kernel", t) \o AllDE("Pos_gle_no_vel_basis", t)
   \* functions 1 and 2 are the coordinates themselves
   /\ \A i \in 0..1 : EE("Pos_gle", t, i) = EE("Pos_gle_const_kernel", t, i) /\ DE("Pos_gle", t, i) = DE("Pos_gle_const_kernel", t, i)
\* kernel functions at rest and their meaning: E of a velocity model is v . (what the kernel multiplies)
KernelFunctions == Len(ts) > 0 => LET t == Eager(Traj) IN \A m \in VelocityModels \cup {"Pos_gle_const_kernel"} : \A i \in 0..(NE(m, t) - 1) :
   EE(m, t, i) = [k \in 1..Len(ts) |-> RSum([c \in 1..2 |-> KK(m, t, i, c - 1)[k] \otimes t.v[k][c]])]
Remainder == Len(ts) > 0 => LET t == Eager(Traj) IN
   Ortho(t, AllF("Pos_gle", t), <<<<"1", "0">>, <<"0", "1">>, <<"0", "0">>, <<"0", "0">>>>) = [c \in 1..2 |-> [k \in 1..Len(ts) |-> "0"]]
=============================================================================
