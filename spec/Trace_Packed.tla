---------------------------- MODULE Trace_Packed ----------------------------
(* Conformance of reads of compressed files with Packed.tla.                 *)
EXTENDS Packed, TraceBase
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ Report(Trace[l], PackedClauses(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
