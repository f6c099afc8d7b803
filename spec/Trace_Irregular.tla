-------------------------- MODULE Trace_Irregular ---------------------------
(* Conformance of objects of ordinary products: they hold what is written    *)
(* where the label says, whatever rules there are for other data sets.       *)
EXTENDS Irregular, TraceBase
VARIABLE l

Form(k) == CASE k = "image" -> "array" [] k = "array" -> "array"
             [] k = "fits" -> "array" [] k \in {"table", "pds4"} -> "frame"
             [] k = "header" -> "text"
Verdict(e) ==
  IF e.obs.kind = "timeout" THEN {"timeout"}
  ELSE IF Irregular(e.o) THEN {}
  ELSE
    Clause("listed", e.listed) \cup
    Clause("form", e.obs.kind = Form(e.kind)) \cup
    (IF e.obs.kind = Form(e.kind)
     THEN Clause("contents", e.obs.cells = e.cells)
     ELSE {}) \cup
    \* no special constants but those found among the elements
    (IF e.kind = "image" /\ Form(e.kind) = e.obs.kind
     THEN Clause("constants", Range(e.consts) \subseteq Range(e.cells)) ELSE {})

TraceInit == l = 1
TraceNext ==
  LET e == Trace[l] IN
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ Report(e, Verdict(e))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
