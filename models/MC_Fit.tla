------------------------------- MODULE MC_Fit -------------------------------
(***************************************************************************)
(* A point of time and a matrix move in small steps.  In every reachable   *)
(* state the forms and their derivatives by the parameters agree with      *)
(* central differences, the special forms are the limits they are named    *)
(* for, and the matrix exponential behind the Prony series has the         *)
(* properties of an exponential.                                           *)
(***************************************************************************)
EXTENDS Fit, TLC
CONSTANTS Times, Ps, Entries, Ranks
VARIABLES t, A
vars == <<t, A>>
Forms == {"exp", "expnorm", "double", "sech", "sech_one", "sech_two", "gaussian"}
MCPs == { <<"2", "1/2", "3/4">>, <<"1", "3/2", "2">> }
Init == t = "0" /\ \E n \in Ranks : A \in [1..n -> [1..n -> Entries]]
Next == \E u \in Times : t = "0" /\ t' = u /\ UNCHANGED A
Spec == Init /\ [][Next]_vars
Small == Len(A) = 1          \* the forms do not depend on A: once is enough
P(f, p) == SubSeq(p, 1, NParams(f))
H == "1/4096"
Shift(p, a, h) == [p EXCEPT ![a] = @ \oplus h]
\* central differences have an error of order H^2
Derivatives == Small => \A f \in Forms, p0 \in Ps : LET p == P(f, p0) D == DForm(f, p, t) IN
   \A a \in 1..NParams(f) : LET c == (Form(f, Shift(p, a, H), t) \ominus Form(f, Shift(p, a, RNeg(H)), t)) \oslash (2 \otimes H)
                            IN WithinTol(D[a], c, 0, "1/10000")
AtZero == Small /\ t = "0" => \A f \in Forms, p0 \in Ps : REq(Form(f, P(f, p0), "0"), IF f \in {"expnorm", "double"} THEN 1 ELSE p0[1])
Limits == Small => \A p \in Ps :
   /\ WithinTol(Form("sech", <<p[1], p[2], "1">>, t), Form("sech_one", P("sech_one", p), t), 0, "1/1000000000000000000000")
   /\ WithinTol(Form("sech", <<p[1], p[2], "2">>, t), Form("sech_two", P("sech_two", p), t), 0, "1/1000000000000000000000")
   /\ WithinTol(Form("double", <<p[1], p[1], p[3]>>, t), Form("expnorm", <<p[1]>>, t), 0, "1/1000000000000000000000")
   /\ WithinTol(Form("exp", <<"1", p[1]>>, t), Form("expnorm", <<p[1]>>, t), 0, "1/1000000000000000000000")
   /\ \A f \in Forms \ {"double"} : RLeq(RAbs(Form(f, P(f, p), t)), Form(f, P(f, p), "0"))
Near(M1, M2) == Close(M1, M2, "1/1000000000000000000000")
Tr(M) == [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> M[j][i]]]
Det2(M) == (M[1][1] \otimes M[2][2]) \ominus (M[1][2] \otimes M[2][1])
ExpGroup == LET E == Eager(MExp(MScale(t, A))) IN
   /\ Near(MExp(MScale(RMul(2, t), A)), MMul(E, E))
   /\ Near(MMul(E, MExp(MScale(RNeg(t), A))), Ident(Len(A)))
   /\ Near(MExp(MScale(t, Tr(A))), Tr(E))
   /\ Near(MMul(E, A), MMul(A, E))
   /\ Len(A) = 2 => WithinTol(Det2(E), Exp(t \otimes (A[1][1] \oplus A[2][2])), 0, "1/1000000000000000000")
   /\ Len(A) = 1 => WithinTol(E[1][1], Exp(t \otimes A[1][1]), 0, "1/1000000000000000000000")
Powers == LET s == PronyPow("3", A, t, 4) IN \A k \in 1..4 : WithinTol(s[k], PronyAt("3", A, RMul(k - 1, t)), 100, "1/1000000000000000000")
=============================================================================
