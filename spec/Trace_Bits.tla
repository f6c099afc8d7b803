----------------------------- MODULE Trace_Bits -----------------------------
(* Conformance of recorded reads of tables with bit columns.                 *)
EXTENDS BitCols, TraceBase
VARIABLE l
Verdict(e) == BitTableClauses(e.tab, e.defs, e.obs, e.file, e.start)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ Report(Trace[l], Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
