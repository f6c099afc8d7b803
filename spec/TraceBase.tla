------------------------------ MODULE TraceBase -----------------------------
(* Skeleton of the trace specifications: line l of the recorded trace is    *)
(* consumed by one step; a line the specification does not allow is         *)
(* reported with the names of the failing clauses and the next one is taken. *)
EXTENDS PdrBytes, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(e, why) ==
  IF why = {} THEN TRUE
  ELSE PrintT("REJECT " \o ToJson([sid |-> e.sid, eid |-> e.eid,
                                   why |-> why]))
=============================================================================
