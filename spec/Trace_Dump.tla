----------------------------- MODULE Trace_Dump -----------------------------
(* Conformance of dumping sessions with Dump.tla.                            *)
EXTENDS Dump, TraceBase
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ Report(Trace[l], DumpClauses(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
