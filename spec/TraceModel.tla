---------------------------- MODULE TraceModel ----------------------------
(***************************************************************************)
(* Evaluation of models at given points, and saving and loading of models. *)
(* A recorded model is a record of fields; a field is "absent" or has      *)
(* the names of its dimensions and its values.                             *)
(***************************************************************************)
EXTENDS Models, TraceBase
Tol == "1/1000000000"

\* ---- evaluation -------------------------------------------------------------
\* a function of position at point i (from 1), kernel function k, component c: rows of KK of the trajectory made of the points
PtE(e) ==
  LET t == e.pts  n == NSteps(t)  nk == NK(e.model, t)
      raw(c) == Transp([k \in 1..nk |-> KK(e.model, t, k - 1, c - 1)])          \* points x functions
  IN Eager([c \in 1..e.d |-> IF Absent(e.P) THEN Eager(raw(c)) ELSE Eager(MMul(Eager(raw(c)), Transp(e.P)))])
Rows(K, a, b) == Eager([i \in 1..(b - a + 1) |-> K[a + i - 1]])

BadForceEval(e) ==
  LET t == e.pts  n == NSteps(t)  nb == NBasis(t)
      bk == Eager([i \in 1..n |-> [j \in 1..nb |-> R(At2(t.bk, i - 1, j - 1))]])
      want == Eager(MMul(bk, Rows(e.coeff, 1, nb)))
  IN Clause("force-value", HasShape(e.out, <<n, Len(e.coeff[1])>>) /\ Close(e.out, want, Tol \otimes (1 \oplus MaxAbs(want))))

BadFrictionEval(e) ==
  LET t == e.pts  n == NSteps(t)  nb == NBasis(t)  ng == NGrad(t)  do == Len(e.coeff[1])
      want(i, o, c) == RSum([k \in 1..ng |-> At3(t.dbk, i - 1, k - 1, c - 1) \otimes e.coeff[nb + k][o]])
      sc == MaxAbs(e.coeff) \oplus MaxAbs(t.dbk)
  IN Clause("friction-value", HasShape(e.out, <<n, do, e.d>>) /\
       \A i \in 1..n, o \in 1..do, c \in 1..e.d : WithinTol(e.out[i][o][c], want(i, o, c), sc, Tol))

\* out: time_kernel x points x observable x position component
BadKernelEval(e) ==
  LET t == e.pts  n == NSteps(t)  E == PtE(e)  do == Len(e.K[1][1])
      skip == IF e.model = "Pos_gle_hybrid" THEN e.d ELSE 0          \* rows of the position independent part
      Kx == Eager([j \in 1..Len(e.K) |-> Rows(e.K[j], skip + 1, Len(e.K[j]))])
      W == Eager([j \in 1..Len(e.K) |-> [c \in 1..e.d |-> MMul(E[c], Kx[j])]])   \* points x observable
      sc == MaxAbs(W)
  IN Clause("kernel-value", HasShape(e.out, <<Len(e.K), n, do, e.d>>) /\
       \A j \in 1..Len(e.K), i \in 1..n, o \in 1..do, c \in 1..e.d : WithinTol(e.out[j][i][o][c], W[j][c][i][o], sc, Tol))

\* free energy in one dimension: minus the primitive of the force, times the effective mass, over kT, and with zero minimum if asked
BadPmf(e) ==
  LET n == Len(e.anti)  nb == Len(e.anti[1])
      m == IF e.model = "Pos_gle_overdamped" \/ Absent(e.mass) THEN "1" ELSE e.mass[1][1]
      raw == Eager([i \in 1..n |-> RNeg((RDot(e.anti[i], [k \in 1..nb |-> e.coeff[k][1]]) \otimes m) \oslash e.kT)])
      sh == IF e.zero THEN RMinOf(raw) ELSE "0"
  IN Clause("free-energy", HasShape(e.out, <<n, 1>>) /\ \A i \in 1..n : WithinTol(e.out[i][1], raw[i] \ominus sh, MaxAbs(raw), Tol))

\* mean of v v' as a function of position (equipartition): projection on the basis functions, for every pair of components
BadPosMass(e) ==
  LET ts == e.trajs  nb == NBasis(ts[1])  d == DimX(ts[1])
      Fn(i) == [k \in 1..Len(ts) |-> B(ts[k], i - 1)]
      VV(a, b) == [k \in 1..Len(ts) |-> LET u == V(ts[k], a - 1)  w == V(ts[k], b - 1) IN [j \in 1..Len(u) |-> u[j] \otimes w[j]]]
      G == Eager([i \in 1..nb |-> [j \in 1..nb |-> PoolDot(Fn(i), Fn(j))]])
  IN Clause("position-dependent-mass", HasShape(e.coeff, <<nb, d, d>>) /\
       \A i \in 1..nb, a, b \in 1..d : WithinTol(RDot(G[i], [j \in 1..nb |-> e.coeff[j][a][b]]), PoolDot(Fn(i), VV(a, b)), MaxAbs(G) \otimes (1 \oplus MaxAbs(e.coeff)), "1/100000000"))
BadInvMass(e) ==
  LET n == Len(e.bk)  nb == Len(e.bk[1])  d == Len(e.coeff[1])
  IN Clause("inverse-mass", HasShape(e.out, <<n, d, d>>) /\ \A i \in 1..n, a, b \in 1..d :
       WithinTol(e.out[i][a][b], RDot(e.bk[i], [k \in 1..nb |-> e.coeff[k][a][b]]), MaxAbs(e.coeff), Tol))

\* free energy with a position dependent mass: numerical integration on equally spaced points
BadNumPmf(e) ==
  LET n == Len(e.bk)
      x(i) == e.x[i]   dx == e.x[2] \ominus e.x[1]
      F == Eager([i \in 1..n |-> RDot(e.bk[i], [k \in 1..Len(e.bk[1]) |-> e.coeff[k][1]])])
      im == Eager([i \in 1..n |-> RDot(e.bk[i], [k \in 1..Len(e.bk[1]) |-> e.mcoeff[k][1][1]])])
      dm(i) == (IF i = 1 THEN im[2] \ominus im[1] ELSE IF i = n THEN im[n] \ominus im[n - 1] ELSE (im[i + 1] \ominus im[i - 1]) \oslash 2) \oslash dx
      g == Eager([i \in 1..n |-> RNeg((F[i] \ominus (dm(i) \oslash e.kT)) \oslash im[i])])
      raw == Eager([i \in 1..n |-> dx \otimes RSum([j \in 1..i |-> g[j]])])
      sh == IF e.zero THEN RMinOf(raw) ELSE "0"
      sc == MaxAbs(raw) \oplus MaxAbs(g)
  IN Clause("free-energy-numerical", HasShape(e.out, <<n>>) /\ \A i \in 1..n : WithinTol(e.out[i], raw[i] \ominus sh, sc, "1/10000000"))

\* ---- saving and loading -------------------------------------------------------
ArrayFields == {"force_coeff", "kernel", "P_range", "gram_force", "gram_kernel", "eff_mass", "inv_mass_coeff"}
PlainFields == {"dt", "trunc_ind", "L_obs", "dim_x", "dim_obs", "method", "rank_projection", "N_basis_elt_force", "N_basis_elt_kernel", "class"}
SameArray(f, g) ==
  IF f.there # g.there THEN FALSE
  ELSE IF ~f.there THEN TRUE
  ELSE {f.dims[i] : i \in 1..Len(f.dims)} = {g.dims[i] : i \in 1..Len(g.dims)} /\ Close(f.v, g.v, "0")
SamePlain(f, g) == f = g
Differing(m1, m2, over) ==
  {f \in ArrayFields : ~SameArray(m1[f], m2[f])} \cup {f \in PlainFields \ over : ~SamePlain(m1[f], m2[f])}
  \cup (IF SameArray(m1.ktime, m2.ktime) THEN {} ELSE {"kernel-times"})
Named(pre, S) == {pre \o ":" \o x : x \in S}
BadLoad(e) ==
  LET over == {e.over[i][1] : i \in 1..Len(e.over)}
  IN Named("loaded", Differing(e.model, e.loaded, over))
     \cup Named("override", {e.over[i][1] : i \in {j \in 1..Len(e.over) : e.loaded[e.over[j][1]] # e.over[j][2]}})
     \cup Clause("saved-unchanged-by-loading", e.filesame)
BadSave(e) == Named("changed-by-saving", Differing(e.before, e.after, {}))
\* files of an estimator: exactly the wanted files, with the estimator's arrays in them
BadFiles(e) ==
  Clause("files", {e.files[i] : i \in 1..Len(e.files)} = {e.want[i] : i \in 1..Len(e.want)})
  \cup UNION {Clause("file-content:" \o e.content[i].name, SameArray(e.content[i].got, e.content[i].want)) : i \in 1..Len(e.content)}

Bad(e) ==
  CASE e.ev = "force" -> BadForceEval(e)
    [] e.ev = "friction" -> BadFrictionEval(e)
    [] e.ev = "kernel" -> BadKernelEval(e)
    [] e.ev = "pmf" -> BadPmf(e)
    [] e.ev = "posmass" -> BadPosMass(e)
    [] e.ev = "invmass" -> BadInvMass(e)
    [] e.ev = "numpmf" -> BadNumPmf(e)
    [] e.ev = "load" -> BadLoad(e)
    [] e.ev = "save" -> BadSave(e)
    [] e.ev = "files" -> BadFiles(e)
    [] e.ev = "refused" -> Clause("refused:" \o e.what, e.outcome = "exc")
    [] e.ev = "same" -> Clause(e.what, Close(e.a, e.b, e.tol))
    [] OTHER -> {"unexpected-failure"}
TraceInit == tid \in 1..Len(Traces) /\ l = 1
TraceNext == l <= Len(Events) /\ Report(Bad(Events[l])) /\ l' = l + 1 /\ UNCHANGED tid
=============================================================================
