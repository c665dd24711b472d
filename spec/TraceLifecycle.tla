--------------------------- MODULE TraceLifecycle ---------------------------
(* Recorded orders of operations on real estimators.  The first event holds *)
(* the value of every result and answer obtained in the plainest order.     *)
EXTENDS Lifecycle, TraceBase
VARIABLE s
Refs == Events[1].refs
Tol == "1/1000000000"
Ref(k) == IF k \in DOMAIN Refs THEN Refs[k] ELSE <<"nan">>

BadHeld(t, e) ==
  UNION {LET p == Prov(t, f) IN
         Clause("result:" \o f \o ":" \o e.a,
                IF p = "nothing" THEN Absent(e.held[f])
                ELSE ~Absent(e.held[f]) /\ Close(e.held[f], Ref(p), Tol \otimes (1 \oplus MaxAbs(Ref(p)))))
         : f \in Fields}
  \cup Clause("method:" \o e.a, e.method = t.km)
BadDo(t, e) ==
  Clause("outcome:" \o e.a, (e.outcome = "ok") <=> Allowed(s, e.a))
  \cup BadHeld(t, e)
  \cup Clause("data-unchanged:" \o e.a, e.data)
BadAsk(e) ==
  Clause("outcome:" \o e.a, (e.outcome = "ok") <=> Answered(s, e.a))
  \cup (IF e.outcome = "ok" /\ Answered(s, e.a) /\ e.a # "save_load"
        THEN Clause("answer:" \o e.a, LET w == Ref(Key(s, e.a)) IN Close(e.val, w, Tol \otimes (1 \oplus MaxAbs(w)))) ELSE {})
  \cup BadHeld(s, e)
  \cup Clause("data-unchanged:" \o e.a, e.data)

TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ s = Fresh(FALSE)
Skip(e) == e.ev \in {"refs"}
TraceNext ==
  /\ l <= Len(Events)
  /\ LET e == Events[l] IN
       CASE e.ev = "refs" -> Report({}) /\ s' = s
         [] e.ev = "new" -> Report({}) /\ s' = Fresh(e.projects)
         [] e.ev = "do" -> LET t == After(s, e.a) IN Report(BadDo(t, e)) /\ s' = t
         [] e.ev = "ask" -> Report(BadAsk(e)) /\ s' = s
         [] e.ev = "names" -> Report(Clause("exported-names", {e.missing[i] : i \in 1..Len(e.missing)} = {})) /\ s' = s
         [] OTHER -> Report({"unexpected-failure"}) /\ s' = s
  /\ l' = l + 1 /\ UNCHANGED tid
=============================================================================
