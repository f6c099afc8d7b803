---------------------------- MODULE Trace_Texts -----------------------------
(* Conformance of recorded header and text reads with Texts.tla.             *)
EXTENDS Texts, TraceBase
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ Report(Trace[l], TextsClauses(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
