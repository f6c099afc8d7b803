------------------------- MODULE Trace_TableScaling -------------------------
(* Conformance of loaded columns with TableScaling.tla.                      *)
EXTENDS TableScaling, TraceBase
VARIABLE l

Stored(c, x) == IF c.decode THEN Number(x, c.signed) ELSE x
Verdict(e) ==
  IF e.obs.kind = "timeout" THEN {"timeout"}
  ELSE IF e.obs.kind # "column" THEN {"loads"}
  ELSE
    Clause("rows", Len(e.obs.values) = Len(e.stored)) \cup
    (IF e.c.type = "text" THEN Clause("text", e.obs.values = e.stored)
     ELSE
       Clause("values",
         /\ Len(e.obs.values) = Len(e.stored)
         /\ \A i \in 1..Len(e.stored) :
              e.obs.values[i] = Value(e.c, Stored(e.c, e.stored[i]))) \cup
       Clause("type", Scaled(e.c) \/ e.obs.dtype = e.dtype))

TraceInit == l = 1
TraceNext ==
  LET e == Trace[l] IN
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ Report(e, Verdict(e))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
