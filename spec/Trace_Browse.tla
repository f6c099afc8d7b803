--------------------------- MODULE Trace_Browse -----------------------------
(* Conformance of rendered browse images with Browse.tla.                    *)
EXTENDS Browse, TraceBase
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ Report(Trace[l], BrowseClauses(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
