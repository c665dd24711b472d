----------------------------- MODULE MC_Storage -----------------------------
(***************************************************************************)
(* All interleavings of computations, saves and loads up to MaxOps steps;  *)
(* those that end with looking at a copy which is older than the live model*)
(* are written out to be replayed.                                         *)
(***************************************************************************)
EXTENDS Storage, TLC, Json
CONSTANTS MaxOps, Ops
MCOps == {"mean_force", "zero_force", "corrs:second", "kernel:rect", "kernel:trapz", "gram_kernel", "effective_mass", "save", "load"}
VARIABLES w, path
vars == <<w, path>>
View == w
Init == \E p \in BOOLEAN : w = World(p) /\ path = <<>>
Next == /\ Len(path) < MaxOps
        /\ \E a \in Ops : Possible(w, a) /\ Do(w, a) # w /\ w' = Do(w, a) /\ path' = Append(path, a)
Spec == Init /\ [][Next]_vars

LoadedWasSaved == There(w.loaded) => There(w.saved)
\* a copy holds only what could be computed on the way to it
Consistent(s) == There(s) => /\ s.kf # "none" => s.corrs # "none" /\ s.force # "none"
                             /\ s.force = "mean" => s.gram
                             /\ s.P => s.projects
CopiesConsistent == Consistent(w.saved) /\ Consistent(w.loaded)
\* results are never lost by computing: what is in the copy is in the live model, perhaps renewed
NothingLost == There(w.saved) => \A f \in ModelFields : Prov(w.saved, f) # "nothing" => Prov(w.live, f) # "nothing"
Snapshot == \A a \in Ops \ StorageOps : Do(w, a).saved = w.saved /\ Do(w, a).loaded = w.loaded
RoundTrip == Content(Do(Do(w, "save"), "load").loaded) = Content(w.live)
Idempotent == Do(Do(w, "save"), "save") = Do(w, "save") /\ (There(w.saved) => Do(Do(w, "load"), "load") = Do(w, "load"))
Emit == (path # <<>> /\ path[Len(path)] = "load" /\ Content(w.saved) # Content(w.live)) => PrintT("GEN " \o ToJson([projects |-> w.live.projects, path |-> path]))
=============================================================================
