----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* The order of operations of an estimation.  The state records, for each  *)
(* result an estimator and its model hold, from what it was obtained:      *)
(*   force   mean force coefficients: none, the mean force, or zero        *)
(*   gram    Gram matrix of the force basis known                          *)
(*   corrs   correlations: none, or the force that was subtracted          *)
(*   second  derivative correlations at all lags known as well             *)
(*   P       projection on the range of the basis known                    *)
(*   kf, km  kernel: the force of the correlations it solves, its method   *)
(*   gramk, mass, imass   kernel Gram matrix, effective masses             *)
(* A result is a function of what it was obtained from: whatever else was  *)
(* done before, in between or after.  An operation that is refused leaves  *)
(* everything as it was.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences

KMethods == {"rect", "midpoint", "trapz", "second_kind_trapz"}
NeedsSecond(m) == m \in {"second_kind_rect", "second_kind_trapz"}
HasRule(m) == m \in {"rect", "trapz", "second_kind_trapz"}     \* methods whose kernel has a quadrature rule for the noise

Fresh(projects) ==
  [projects |-> projects, force |-> "none", gram |-> FALSE, corrs |-> "none", second |-> FALSE, P |-> FALSE,
   kf |-> "none", km |-> "none", gramk |-> FALSE, mass |-> FALSE, imass |-> FALSE]

Computations == {"mean_force", "zero_force", "gram_force", "corrs:second", "corrs:first", "gram_kernel", "effective_mass", "pos_effective_mass", "kernel:unknown"}
                \cup {"kernel:rect", "kernel:midpoint", "kernel:trapz", "kernel:second_kind_trapz"}
MethodOf(a) == CASE a = "kernel:rect" -> "rect" [] a = "kernel:midpoint" -> "midpoint" [] a = "kernel:trapz" -> "trapz"
                 [] a = "kernel:second_kind_trapz" -> "second_kind_trapz" [] OTHER -> "unknown"
IsKernel(a) == a \in {"kernel:rect", "kernel:midpoint", "kernel:trapz", "kernel:second_kind_trapz", "kernel:unknown"}

Allowed(s, a) ==
  CASE a \in {"mean_force", "zero_force", "gram_force", "effective_mass", "pos_effective_mass"} -> TRUE
    [] a \in {"corrs:second", "corrs:first"} -> s.force # "none"
    [] a = "gram_kernel" -> s.projects => s.P
    [] IsKernel(a) -> /\ s.corrs # "none" /\ a # "kernel:unknown"
                      /\ NeedsSecond(MethodOf(a)) => s.second
After(s, a) ==
  IF ~Allowed(s, a) THEN s
  ELSE CASE a = "mean_force" -> [s EXCEPT !.force = "mean", !.gram = TRUE]
         [] a = "zero_force" -> [s EXCEPT !.force = "zero"]
         [] a = "gram_force" -> [s EXCEPT !.gram = TRUE]
         [] a = "corrs:second" -> [s EXCEPT !.corrs = s.force, !.second = TRUE, !.P = s.projects]
         [] a = "corrs:first" -> [s EXCEPT !.corrs = s.force, !.second = FALSE, !.P = s.projects]
         [] a = "gram_kernel" -> [s EXCEPT !.gramk = TRUE]
         [] a = "effective_mass" -> [s EXCEPT !.mass = TRUE]
         [] a = "pos_effective_mass" -> [s EXCEPT !.imass = TRUE]
         [] OTHER -> [s EXCEPT !.kf = s.corrs, !.km = MethodOf(a)]

\* questions, which change nothing
Questions == {"force_eval", "pmf_eval", "inv_mass_eval", "kernel_eval", "noise", "projected", "check", "laplace", "save_load"}
Answered(s, a) ==
  CASE a \in {"force_eval", "pmf_eval"} -> s.force # "none"
    [] a = "inv_mass_eval" -> s.imass
    [] a \in {"kernel_eval", "check", "laplace"} -> s.kf # "none"
    [] a \in {"noise", "projected"} -> s.force # "none" /\ s.kf # "none" /\ HasRule(s.km)
    [] OTHER -> TRUE

\* from what an answer is obtained
Ker(s) == s.kf \o ":" \o s.km
B2S(b) == IF b THEN "1" ELSE "0"
Key(s, a) ==
  CASE a = "force_eval" -> "force_eval:" \o s.force
    [] a = "pmf_eval" -> "pmf_eval:" \o s.force \o ":" \o B2S(s.mass)
    [] a = "inv_mass_eval" -> "inv_mass_eval"
    [] a \in {"kernel_eval", "laplace"} -> a \o ":" \o Ker(s)
    [] a \in {"noise", "projected"} -> a \o ":" \o s.force \o ":" \o Ker(s)
    [] a = "check" -> "check:" \o s.corrs \o ":" \o Ker(s)
    [] OTHER -> a

\* the results held in a state, each with what it was obtained from; a result which is not there is not listed
Held(s) ==
  (IF s.force = "none" THEN {} ELSE {<<"force", "force:" \o s.force>>})
  \cup (IF s.gram THEN {<<"gram", "gram">>} ELSE {})
  \cup (IF s.corrs = "none" THEN {} ELSE {<<"bkbk", "bkbk">>, <<"bkdx", "bkdx:" \o s.corrs>>})
  \cup (IF s.corrs # "none" /\ s.second THEN {<<"dotbkbk", "dotbkbk">>, <<"dotbkdx", "dotbkdx:" \o s.corrs>>} ELSE {})
  \cup (IF s.corrs # "none" /\ ~s.second THEN {<<"dotbkdx", "dotbkdx0:" \o s.corrs>>} ELSE {})
  \cup (IF s.P THEN {<<"P", "P">>} ELSE {})
  \cup (IF s.kf = "none" THEN {} ELSE {<<"kernel", "kernel:" \o Ker(s)>>, <<"ktime", "ktime:" \o s.km>>})
  \cup (IF s.gramk THEN {<<"gramk", "gramk">>} ELSE {})
  \cup (IF s.mass THEN {<<"mass", "mass">>} ELSE {})
  \cup (IF s.imass THEN {<<"imass", "imass">>} ELSE {})
Fields == {"force", "gram", "bkbk", "bkdx", "dotbkbk", "dotbkdx", "P", "kernel", "ktime", "gramk", "mass", "imass"}
Prov(s, f) == IF \E h \in Held(s) : h[1] = f THEN (CHOOSE h \in Held(s) : h[1] = f)[2] ELSE "nothing"
=============================================================================
