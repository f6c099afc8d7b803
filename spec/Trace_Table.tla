---------------------------- MODULE Trace_Table -----------------------------
(* Conformance of recorded binary table reads with Table.tla.                *)
EXTENDS Table, TraceBase
VARIABLE l

Verdict(e) == TableClauses(e.tab, e.obs, e.file, e.start)

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ Report(Trace[l], Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
