----------------------------- MODULE Trace_Fits ------------------------------
(* Conformance of FITS products with Fits.tla.                               *)
EXTENDS Fits, TraceBase
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ Report(Trace[l], SessionClauses(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
