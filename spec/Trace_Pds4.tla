----------------------------- MODULE Trace_Pds4 -----------------------------
(* Conformance of opened PDS4 products with Pds4.tla.                        *)
EXTENDS Pds4, TraceBase
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ Report(Trace[l], Clauses4(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
