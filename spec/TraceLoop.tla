----------------------------- MODULE TraceLoop -----------------------------
(***************************************************************************)
(* Walks the lines of a trace file, W independent chains so that several   *)
(* workers share the work.  A module using it defines the verdict of a     *)
(* line ("ok" or what is wrong with it).                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
W == 8
VARIABLE l

Init == l \in {k \in 1..N : k <= W}
Step(verdict) ==
  /\ l <= N
  /\ IF verdict = "ok" THEN TRUE ELSE PrintT("BAD " \o ToJson([id |-> Trace[l].id, why |-> verdict]))
  /\ l' = l + W
Bound == l <= N + W
=============================================================================
