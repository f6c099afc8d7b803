----------------------------- MODULE Trace_Text -----------------------------
(* Conformance of recorded text table reads with TextTable.tla.              *)
EXTENDS TextTable, TraceBase
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ Report(Trace[l], TextTableClauses(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
