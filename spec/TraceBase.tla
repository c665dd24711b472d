----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Shared by all trace specifications.  A trace is one recorded behaviour  *)
(* of the implementation: a sequence of events.  The traces of a run are   *)
(* independent: TLC takes one initial state per trace and walks it, so a   *)
(* run of n events has n + 1 states, and every event is judged.            *)
(***************************************************************************)
EXTENDS Rat, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid,   \* which trace
          l      \* next event

Events == Traces[tid].events
Report(bad) == \A c \in bad : PrintT("BAD " \o ToString(tid) \o " " \o ToString(l) \o " " \o c)

\* an event the driver could not obtain: exception, dead or hanging process
Failed(e) == e.ev = "fail"
Clause(name, holds) == IF holds THEN {} ELSE {name}
Has(e, f) == f \in DOMAIN e
=============================================================================
