---------------------------- MODULE TraceStorage ----------------------------
(* Saving and loading: single copies (TraceModel), and orders of            *)
(* computations, saves and loads replayed on real models.  The references   *)
(* are the results obtained in the plainest order.                          *)
EXTENDS TraceModel, Storage
VARIABLE w
Refs == Events[1].refs
Ref(k) == IF k \in DOMAIN Refs THEN Refs[k] ELSE <<"nan">>

BadContent(what, s, c, a) ==
  IF ~There(s) THEN Clause(what \o ":" \o a, c = "absent")
  ELSE UNION {LET p == Prov(s, f) IN
         Clause(what \o ":" \o f \o ":" \o a,
                IF p = "nothing" THEN Absent(c.held[f])
                ELSE ~Absent(c.held[f]) /\ Close(c.held[f], Ref(p), Tol \otimes (1 \oplus MaxAbs(Ref(p)))))
         : f \in ModelFields}
       \cup Clause(what \o ":parameters:" \o a, c.method = s.km /\ c.projects = s.projects)
BadOp(u, e) ==
  Clause("outcome:" \o e.a, (e.outcome = "ok") <=> Possible(w, e.a))
  \cup BadContent("live", u.live, e.live, e.a)
  \cup BadContent("saved-copy", u.saved, e.saved, e.a)
  \cup BadContent("loaded-model", u.loaded, e.loaded, e.a)

StorageInit == TraceInit /\ w = World(FALSE)
StorageNext ==
  /\ l <= Len(Events)
  /\ LET e == Events[l] IN
       CASE e.ev = "refs" -> Report({}) /\ w' = w
         [] e.ev = "new" -> Report({}) /\ w' = World(e.projects)
         [] e.ev = "op" -> LET u == Do(w, e.a) IN Report(BadOp(u, e)) /\ w' = u
         [] OTHER -> Report(Bad(e)) /\ w' = w
  /\ l' = l + 1 /\ UNCHANGED tid
=============================================================================
