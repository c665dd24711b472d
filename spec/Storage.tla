------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* Saving and loading in the life of a model.  Besides the model of the    *)
(* estimator (live, see Lifecycle) there may be a saved copy, and a model  *)
(* loaded from it.  Saving is a snapshot: what is computed later changes   *)
(* neither the saved data nor a model loaded from it, and loading changes  *)
(* neither.                                                                *)
(***************************************************************************)
EXTENDS Lifecycle

ModelFields == {"force", "gram", "P", "kernel", "ktime", "gramk", "mass", "imass"}
NoModel == [Fresh(FALSE) EXCEPT !.force = "no model"]
World(p) == [live |-> Fresh(p), saved |-> NoModel, loaded |-> NoModel]
There(s) == s.force # "no model"

StorageOps == {"save", "load"}
Possible(w, a) == CASE a = "save" -> TRUE [] a = "load" -> There(w.saved) [] OTHER -> Allowed(w.live, a)
Do(w, a) ==
  CASE a = "save" -> [w EXCEPT !.saved = w.live]
    [] a = "load" -> IF There(w.saved) THEN [w EXCEPT !.loaded = w.saved] ELSE w
    [] OTHER -> [w EXCEPT !.live = After(w.live, a)]
\* what a model holds of what is saved, by where it comes from
Content(s) == [f \in ModelFields |-> Prov(s, f)]
=============================================================================
