------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* What each model projects on.  A trajectory is a record                  *)
(*   x, v, a : time x dim_x       obs : time x dim_obs  (the observable)   *)
(*   bk : time x N     basis values                                        *)
(*   dbk : time x N' x dim_x      their gradients (N' <= N: the constant   *)
(*   ddbk : time x N' x dim x dim   may be left out), and hessians         *)
(* A model defines three families of time series:                          *)
(*   F_i  the functions the mean force is expanded on                      *)
(*   E_i  the functions the memory kernel multiplies                       *)
(*   dE_i the time derivatives of E_i along the trajectory                 *)
(***************************************************************************)
EXTENDS Correlation

VelocityModels == {"Pos_gle", "Pos_gle_with_friction"}        \* E = v . grad b
PositionModels == {"Pos_gle_no_vel_basis", "Pos_gle_overdamped"}  \* E = b
\* "Pos_gle_const_kernel": E = v       "Pos_gle_hybrid": E = (v, b)

NSteps(t) == Size(t.bk)
DimX(t) == Size(At(t.x, 0))
NBasis(t) == Size(At(t.bk, 0))
NGrad(t) == Size(At(t.dbk, 0))
DimObs(t) == Size(At(t.obs, 0))

Series(t, F(_)) == [k \in 1..NSteps(t) |-> F(k - 1)]

B(t, i) == Series(t, LAMBDA k : At2(t.bk, k, i))
V(t, c) == Series(t, LAMBDA k : At2(t.v, k, c))
A(t, c) == Series(t, LAMBDA k : At2(t.a, k, c))
Obs(t, c) == Series(t, LAMBDA k : At2(t.obs, k, c))
\* v . grad b_i  and its time derivative  a . grad b_i + v . hess b_i . v
VGrad(t, i) == Series(t, LAMBDA k : RDot(At2(t.dbk, k, i), At(t.v, k)))
DVGrad(t, i) == Series(t, LAMBDA k : RDot(At2(t.dbk, k, i), At(t.a, k))
                  \oplus RSum([c \in 1..DimX(t) |-> At2(t.v, k, c - 1) \otimes RDot(At3(t.ddbk, k, i, c - 1), At(t.v, k))]))

NE(m, t) == CASE m \in VelocityModels -> NGrad(t)
              [] m \in PositionModels -> NBasis(t)
              [] m = "Pos_gle_const_kernel" -> DimX(t)
              [] m = "Pos_gle_hybrid" -> DimX(t) + NBasis(t)
NF(m, t) == IF m = "Pos_gle_with_friction" THEN NBasis(t) + NGrad(t) ELSE NBasis(t)

EE(m, t, i) == CASE m \in VelocityModels -> VGrad(t, i)
                 [] m \in PositionModels -> B(t, i)
                 [] m = "Pos_gle_const_kernel" -> V(t, i)
                 [] m = "Pos_gle_hybrid" -> IF i < DimX(t) THEN V(t, i) ELSE B(t, i - DimX(t))
DE(m, t, i) == CASE m \in VelocityModels -> DVGrad(t, i)
                 [] m \in PositionModels -> VGrad(t, i)
                 [] m = "Pos_gle_const_kernel" -> A(t, i)
                 [] m = "Pos_gle_hybrid" -> IF i < DimX(t) THEN A(t, i) ELSE VGrad(t, i - DimX(t))
FF(m, t, i) == IF i < NBasis(t) THEN B(t, i) ELSE VGrad(t, i - NBasis(t))

\* the function the kernel coefficients multiply when the kernel is evaluated at a point, component c
NK(m, t) == IF m = "Pos_gle_hybrid" THEN NBasis(t) ELSE NE(m, t)
KK(m, t, i, c) == CASE m \in VelocityModels -> Series(t, LAMBDA k : At3(t.dbk, k, i, c))
                    [] m = "Pos_gle_const_kernel" -> Series(t, LAMBDA k : IF i = c THEN 1 ELSE 0)
                    [] OTHER -> B(t, i)

AllE(m, t) == [i \in 1..NE(m, t) |-> EE(m, t, i - 1)]
AllDE(m, t) == [i \in 1..NE(m, t) |-> DE(m, t, i - 1)]
AllF(m, t) == [i \in 1..NF(m, t) |-> FF(m, t, i - 1)]
AllObs(t) == [c \in 1..DimObs(t) |-> Obs(t, c - 1)]

\* observable minus mean force, component c: needs the series F (nf sequences) and coefficients (nf x dim_obs)
ForceAt(Fs, coeff, k, c) == RDot([i \in 1..Len(Fs) |-> Fs[i][k]], [i \in 1..Len(Fs) |-> coeff[i][c]])
Ortho(t, Fs, coeff) ==
  [c \in 1..DimObs(t) |-> [k \in 1..NSteps(t) |-> RSub(At2(t.obs, k - 1, c - 1), ForceAt(Fs, coeff, k, c))]]

\* ---- averages over several trajectories: every sample counts once ---------
TotalLen(ts) == RSum([i \in 1..Len(ts) |-> NSteps(ts[i])])
\* A, B: one series per trajectory
PoolDot(As, Bs) == RSum([i \in 1..Len(As) |-> RDot(As[i], Bs[i])]) \oslash RSum([i \in 1..Len(As) |-> Len(As[i])])
PoolCorr(As, Bs, n) == RSum([i \in 1..Len(As) |-> Corr(As[i], Bs[i], n) \otimes Len(As[i])]) \oslash RSum([i \in 1..Len(As) |-> Len(As[i])])
PoolMean(As) == RSum([i \in 1..Len(As) |-> RSum(As[i])]) \oslash RSum([i \in 1..Len(As) |-> Len(As[i])])

\* ---- matrices -------------------------------------------------------------
MatEntry(P, Q, i, j) == RSum([k \in 1..Len(Q) |-> P[i][k] \otimes Q[k][j]])
MatMul(P, Q) == [i \in 1..Len(P) |-> [j \in 1..Len(Q[1]) |-> MatEntry(P, Q, i, j)]]
Transp(P) == [j \in 1..Len(P[1]) |-> [i \in 1..Len(P) |-> P[i][j]]]
=============================================================================
