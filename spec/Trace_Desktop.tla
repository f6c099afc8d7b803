--------------------------- MODULE Trace_Desktop ----------------------------
(* Conformance of opened image files with Desktop.tla.                       *)
EXTENDS Desktop, TraceBase
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ Report(Trace[l], DesktopClauses(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
