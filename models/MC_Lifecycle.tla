---------------------------- MODULE MC_Lifecycle ----------------------------
(***************************************************************************)
(* All orders of operations; one shortest behaviour to every state is      *)
(* written out to be replayed on the real estimators.                      *)
(***************************************************************************)
EXTENDS Lifecycle, TLC, Json, FiniteSets
VARIABLES s, path
vars == <<s, path>>
View == s
Init == \E p \in BOOLEAN : s = Fresh(p) /\ path = <<>>
Do(a) == s' = After(s, a) /\ path' = IF s' = s THEN path ELSE Append(path, a)
Next == \E a \in Computations : Do(a)
Spec == Init /\ [][Next]_vars

TypeOK == /\ s.force \in {"none", "mean", "zero"} /\ s.corrs \in {"none", "mean", "zero"} /\ s.kf \in {"none", "mean", "zero"}
          /\ s.km \in {"none", "rect", "midpoint", "trapz", "second_kind_trapz"}
\* nothing comes from what has never been there
KernelFromCorrs == s.kf # "none" => s.corrs # "none" /\ s.force # "none"
CorrsFromForce == s.corrs # "none" => s.force # "none"
MeanHasGram == s.force = "mean" => s.gram
ProjectionFromCorrs == s.P => s.projects /\ s.corrs # "none"
NoSecondWithout == s.second => s.corrs # "none"
\* a complete estimation forgets what was done before it
RECURSIVE Run(_, _)
Run(t, as) == IF as = <<>> THEN t ELSE Run(After(t, Head(as)), Tail(as))
Complete == {<<f, "corrs:second", k>> : f \in {"mean_force", "zero_force"}, k \in {"kernel:rect", "kernel:midpoint", "kernel:trapz", "kernel:second_kind_trapz"}}
Forgets == \A as \in Complete :
   LET t == Run(s, as)  u == Run(Fresh(s.projects), as)
   IN t.force = u.force /\ t.corrs = u.corrs /\ t.second = u.second /\ t.kf = u.kf /\ t.km = u.km /\ t.P = u.P
\* independent computations commute
Commute == \A a \in {"gram_force", "effective_mass", "pos_effective_mass"}, b \in Computations :
   After(After(s, a), b) = After(After(s, b), a)
\* a refused operation changes nothing, an allowed one changes at most what it is for
Scope(a) == CASE a = "mean_force" -> {"force", "gram"} [] a = "zero_force" -> {"force"} [] a = "gram_force" -> {"gram"}
              [] a \in {"corrs:second", "corrs:first"} -> {"bkbk", "bkdx", "dotbkbk", "dotbkdx", "P"}
              [] a = "gram_kernel" -> {"gramk"} [] a = "effective_mass" -> {"mass"} [] a = "pos_effective_mass" -> {"imass"}
              [] OTHER -> {"kernel", "ktime"}
Scoped == \A a \in Computations : \A f \in Fields \ (IF Allowed(s, a) THEN Scope(a) ELSE {}) : Prov(After(s, a), f) = Prov(s, f)
Emit == PrintT("GEN " \o ToJson([projects |-> s.projects, path |-> path, refused |-> {a \in Computations : ~Allowed(s, a)}]))
=============================================================================
