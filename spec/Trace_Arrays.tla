---------------------------- MODULE Trace_Arrays ----------------------------
(* Conformance of loaded ARRAYs and HISTOGRAMs with Arrays.tla.              *)
EXTENDS Arrays, TraceBase
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ Report(Trace[l], ArrayClauses(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
