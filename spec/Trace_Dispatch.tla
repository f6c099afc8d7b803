--------------------------- MODULE Trace_Dispatch ---------------------------
(* Conformance of loaded objects with Dispatch.tla.                          *)
EXTENDS Dispatch, TraceBase
VARIABLE l

Verdict(e) ==
  LET k == Kind(e.o) IN
  IF e.obs.kind = "timeout" THEN {"timeout"}
  ELSE
    Clause("listed", e.listed = (k # "hidden")) \cup
    (CASE k = "hidden" -> Clause("hidden", e.obs.kind \in {"exc", "nothing"})
       [] k = "unsupported" ->
            Clause("unsupported", e.obs.kind = "unsupported" /\ e.warned)
       [] OTHER -> Clause("reader", e.obs.kind = k)) \cup
    (CASE k = "image" /\ e.form = "bytes" /\ e.obs.kind = "image" ->
            Clause("elements", e.obs.data = Elements(e.o))
       [] k = "image" /\ e.form = "reals" /\ e.obs.kind = "image" ->
            Clause("reals", e.obs.data = Reals(e.o))
       [] k = "image" /\ e.form = "planes" /\ e.obs.kind = "image" ->
            Clause("planes", e.obs.data = Planes(e.o))
       [] OTHER -> {})

TraceInit == l = 1
TraceNext ==
  LET e == Trace[l] IN
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ Report(e, Verdict(e))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
